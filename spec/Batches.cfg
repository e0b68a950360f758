SPECIFICATION Spec
INVARIANTS EndsDoNotMatter CompleteGroups
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Rules
CHECK_DEADLOCK FALSE

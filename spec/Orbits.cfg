SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE

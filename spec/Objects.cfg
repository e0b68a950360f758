SPECIFICATION Spec
INVARIANTS Shown Accepted Distinguished
CHECK_DEADLOCK FALSE

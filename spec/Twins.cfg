SPECIFICATION Spec
INVARIANTS SameMeaning
CHECK_DEADLOCK FALSE

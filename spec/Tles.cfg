SPECIFICATION Spec
INVARIANTS Classified DigitsProtected LengthsProtected EpochsExist NoSuchDay LessTextLessDefects
CHECK_DEADLOCK FALSE

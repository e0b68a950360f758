SPECIFICATION Spec
INVARIANTS Calendars ElapsedLaws SiderealLaws Limits64
CHECK_DEADLOCK FALSE

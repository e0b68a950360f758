\* safety on all behaviours within the bounds; prints them
SPECIFICATION Spec
CONSTANTS
  Unit = 4
  Times <- AllTimes
  MaxCalls = 4
  MaxHandles = 2
  Exporting = TRUE
INVARIANTS TypeOK PathMatchesTime ReuseIsInvisible NeverBeyond ServedAtTruncation OnlyResonantHaveStates Export
PROPERTY Refines
CHECK_DEADLOCK FALSE

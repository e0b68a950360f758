\* action and liveness properties
SPECIFICATION FairSpec
CONSTANTS
  Unit = 4
  Times <- FewTimes
  MaxCalls = 3
  MaxHandles = 2
  Exporting = FALSE
INVARIANTS TypeOK PathMatchesTime ReuseIsInvisible NeverBeyond ServedAtTruncation OnlyResonantHaveStates
PROPERTIES AwayFromEpoch Answered Refines
CHECK_DEADLOCK FALSE

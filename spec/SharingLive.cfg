\* liveness, with fewer requests
SPECIFICATION FairSpec
CONSTANTS
  Clients = {1, 2}
  Satellites = {1, 2}
  ResonantSatellites = {1}
  Times = {1, 9}
  Unit = 4
  MaxCalls = 2
  Exporting = FALSE
INVARIANTS Pure Separate
PROPERTIES Refines Returned
CHECK_DEADLOCK FALSE

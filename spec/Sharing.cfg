SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Satellites = {1, 2}
  ResonantSatellites = {1}
  Times = {1, 5, 9}
  Unit = 4
  MaxCalls = 2
  Exporting = TRUE
INVARIANTS Pure Separate Export
PROPERTY Refines
CHECK_DEADLOCK FALSE

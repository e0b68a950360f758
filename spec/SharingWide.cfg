\* three clients, two resonant satellites, one request each at a time
SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  Satellites = {1, 2}
  ResonantSatellites = {1, 2}
  Times = {1, 5}
  Unit = 4
  MaxCalls = 1
  Exporting = TRUE
INVARIANTS Pure Separate Export
PROPERTY Refines
CHECK_DEADLOCK FALSE

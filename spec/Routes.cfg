\* all formats, two operations after the constants were built; prints the routes
SPECIFICATION Spec
CONSTANTS
  Unit = 4
  Moments <- SomeMoments
  Formats <- AllFormats
  MaxOps = 2
  Exporting = TRUE
INVARIANTS TypeOK RoutesAgree PureAgree OnlyRestoredMix Export
CHECK_DEADLOCK FALSE

\* one format, four operations after the constants were built; prints the routes
SPECIFICATION Spec
CONSTANTS
  Unit = 4
  Moments <- LaterMoments
  Formats <- OneFormat
  MaxOps = 4
  Exporting = TRUE
INVARIANTS TypeOK RoutesAgree PureAgree OnlyRestoredMix Export
CHECK_DEADLOCK FALSE

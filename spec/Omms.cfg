SPECIFICATION Spec
INVARIANTS Shown RoundTrip Judged Clocks OrderIrrelevant
CHECK_DEADLOCK FALSE

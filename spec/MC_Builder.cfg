SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxAcc = 5
  MaxSteps = 3
  MaxNew = 2
  Emit = FALSE
INVARIANTS Accepted NoSymbolLost OnlyFromData WithinSize WellShaped Alternate MinProb Counting Shared Possible Emitted
PROPERTIES Monotone PublishOnlyReducing
CHECK_DEADLOCK FALSE

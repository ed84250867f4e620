SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 4
  Emit = FALSE
INVARIANTS Accepted Exact InitFollows Best Emitted
PROPERTIES Grows BestInWholeNumbers
CHECK_DEADLOCK FALSE

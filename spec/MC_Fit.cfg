SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 3
  MaxNew = 1
  Emit = FALSE
INVARIANTS Accepted Fitted OneDictionary RoundTrip CanFinish Emitted
PROPERTIES Final Interrupted Ends
CHECK_DEADLOCK FALSE

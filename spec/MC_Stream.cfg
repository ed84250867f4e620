SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 5
  MaxAcc = 5
  MaxNew = 1
  Emit = FALSE
INVARIANTS Accepted OneDictionary AsStated DistinctCodes RoundTrip Parsable Separate Emitted
PROPERTIES Stable
CHECK_DEADLOCK FALSE

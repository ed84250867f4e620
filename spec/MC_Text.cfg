SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 4
  MaxAcc = 2
  MaxNew = 1
  Emit = FALSE
INVARIANTS Accepted OneAlphabet TokensApart Spelled RoundTrip Emitted
PROPERTIES Stable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxOps = 4
  MaxText = 2
  Emit = FALSE
INVARIANTS Accepted Dense Reversible Normal WordRuns Emitted
PROPERTIES Growing
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Params = {1, 2, 30, 100000}
  MaxParams = 4
  Dev = 7
  Emit = FALSE
INVARIANTS IsOne Small Other Emitted
CHECK_DEADLOCK FALSE

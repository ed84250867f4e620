SPECIFICATION Spec
CONSTANTS
  Sym = {1, 2}
  MaxLen = 3
  MaxEntries = 2
  ProbeLen = 3
  Extra = {3}
  Emit = FALSE
INVARIANTS Parents Appended Searches Greedy Weighs Emitted
CHECK_DEADLOCK FALSE

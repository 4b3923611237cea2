SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxCalls = 3
  KeepsWriteEnd = FALSE
  IgnoresEnd = TRUE
INVARIANTS Exact Works
PROPERTIES EveryCallReturns ExeFollows

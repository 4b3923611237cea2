SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxCalls = 3
  KeepsWriteEnd = TRUE
  IgnoresEnd = FALSE
INVARIANTS Exact Works
PROPERTIES EveryCallReturns ExeFollows

SPECIFICATION Spec
CONSTANTS
  Texts = 2
  Starts = 2
  Mistake = "none"
INVARIANT Once
INVARIANT Ours
PROPERTY Kept
CHECK_DEADLOCK FALSE

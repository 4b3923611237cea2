SPECIFICATION Spec
CONSTANTS
  Texts = 4
  Starts = 4
  Mistake = "none"
INVARIANT Once
INVARIANT Ours
PROPERTY Kept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Texts = 2
  Starts = 2
  Mistake = "handles"
INVARIANT Once
INVARIANT Ours
PROPERTY Kept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Marks = "none"

PROPERTY Returns
PROPERTY Ends_
CHECK_DEADLOCK FALSE

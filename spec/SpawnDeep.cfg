SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Marks = "born"
INVARIANT OwnOnly
PROPERTY Returns
PROPERTY Ends_
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Sessions = {1, 2, 3}
  LeaksOnFailure = FALSE
  Inherits = FALSE
  Uncollected = FALSE
INVARIANT Exact
PROPERTY Notices
CHECK_DEADLOCK FALSE

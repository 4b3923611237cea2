SPECIFICATION Spec
CONSTANTS
  Sessions = {1, 2, 3}
  LeaksOnFailure = TRUE
  Inherits = FALSE
  Uncollected = FALSE
INVARIANT Exact
PROPERTY Notices
CHECK_DEADLOCK FALSE

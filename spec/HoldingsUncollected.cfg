SPECIFICATION Spec
CONSTANTS
  Sessions = {1, 2, 3}
  LeaksOnFailure = FALSE
  Inherits = FALSE
  Uncollected = TRUE
INVARIANT Exact
PROPERTY Notices
CHECK_DEADLOCK FALSE

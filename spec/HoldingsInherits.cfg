SPECIFICATION Spec
CONSTANTS
  Sessions = {1, 2, 3}
  LeaksOnFailure = FALSE
  Inherits = TRUE
  Uncollected = FALSE

PROPERTY Notices
CHECK_DEADLOCK FALSE

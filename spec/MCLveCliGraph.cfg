SPECIFICATION Spec
CONSTANTS MaxArgs = 3
Emit = TRUE
INVARIANTS Truth Manager
CHECK_DEADLOCK FALSE

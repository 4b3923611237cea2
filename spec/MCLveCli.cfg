SPECIFICATION Spec
CONSTANTS MaxArgs = 4
Emit = FALSE
INVARIANTS Truth Manager
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxArgs = 5
Emit = FALSE
INVARIANTS Truth Manager
CHECK_DEADLOCK FALSE

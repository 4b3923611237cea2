SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Silent
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Delivered NoPlain UntrustedNothing OtherKeysNothing UnlicensedNothing
CHECK_DEADLOCK FALSE

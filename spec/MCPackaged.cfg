SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Delivered NoPlain UntrustedNothing OtherKeysNothing UnlicensedNothing
CHECK_DEADLOCK FALSE

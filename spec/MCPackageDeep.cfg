SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS StatusTells NoEarlyContainer Complete NothingElse NoPlainModel OldMetadata Openable OneManifest Listed Distinct
CHECK_DEADLOCK FALSE

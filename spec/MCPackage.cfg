SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS StatusTells NoEarlyContainer Complete NothingElse NoPlainModel OldMetadata Openable OneManifest Listed Distinct
CHECK_DEADLOCK FALSE

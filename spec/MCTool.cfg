SPECIFICATION Spec
CONSTANTS EmitGraph = FALSE
INVARIANTS InOrder CompleteAtEnd NoFalseSuccess NothingAfterLoss VersionKinds RefusalExact Deterministic

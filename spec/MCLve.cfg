SPECIFICATION Spec
CONSTANTS
  Peers = {"tool0", "tool1", "other", "none"}
  Globals = {"", "G"}
  Grants = {{"g"}, {"g", "G"}}
  NewFails = {0, 1, 9}
  Tampers = {"flipX", "flipS", "flipP", "swapXA", "delA", "restore"}
  EmitGraph = FALSE
VIEW View
INVARIANTS OnlyTrustedGetContent ContentNeedsSession LicenseNeedsSession NamedOnce AlwaysAnswered ReplyKinds
  ManagerOnce YesOnlyIfGranted AskedOnce GlobalGate NeverAskedWithout OnlyOriginal IntactServed NoEscape VersionFirst
PROPERTIES RefusedChangesNothing PhaseOnlyForward
CONSTRAINT Bounded

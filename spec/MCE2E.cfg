SPECIFICATION Spec
CONSTANTS
  Peers = {"tool0", "other"}
  Globals = {"", "G"}
  Grants = {{"g"}, {"g", "G"}}
  NewFails = {0, 1}
  EmitGraph = FALSE
CONSTRAINT Bounded
INVARIANTS TooEarly OneFile LicensesExact Untrusted
PROPERTIES Twice TwiceLib FailedChangesNothing

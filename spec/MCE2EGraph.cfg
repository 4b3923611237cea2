SPECIFICATION Spec
CONSTANTS
  Peers = {"tool0", "other"}
  Globals = {"", "G"}
  Grants = {{"g"}, {"g", "G"}}
  NewFails = {0, 1}
  EmitGraph = TRUE
CONSTRAINT Bounded
VIEW GraphView
ACTION_CONSTRAINT Emit

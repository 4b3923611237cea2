SPECIFICATION Spec
CONSTANTS
  Peers = {"tool0", "other", "none"}
  Globals = {"", "G"}
  Grants = {{"g"}, {"g", "G"}}
  NewFails = {0, 1}
  Tampers = {"flipX", "flipS", "flipP", "swapXA", "delA", "restore"}
  EmitGraph = TRUE
VIEW GraphView
ACTION_CONSTRAINT Emit

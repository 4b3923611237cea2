SPECIFICATION Spec
CONSTANTS EmitGraph = TRUE
VIEW GraphView
ACTION_CONSTRAINT Emit

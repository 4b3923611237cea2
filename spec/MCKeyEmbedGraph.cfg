SPECIFICATION Spec
CONSTANTS Bytes = {0, 10, 13, 65, 255}
MaxLen = 3
MaxBuilds = 1
Emit = TRUE
INVARIANTS Exact
CHECK_DEADLOCK FALSE

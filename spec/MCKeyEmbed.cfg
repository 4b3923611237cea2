SPECIFICATION Spec
CONSTANTS Bytes = {0, 10, 13, 65, 255}
MaxLen = 4
MaxBuilds = 4
Emit = FALSE
INVARIANTS Exact InBounds Gone Families
CHECK_DEADLOCK FALSE

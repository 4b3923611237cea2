SPECIFICATION Spec
CONSTANTS Bytes = {0, 10, 13, 65, 255}
MaxLen = 6
MaxBuilds = 6
Emit = FALSE
INVARIANTS Exact InBounds Gone Families
CHECK_DEADLOCK FALSE

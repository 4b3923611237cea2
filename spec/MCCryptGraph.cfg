SPECIFICATION Spec
CONSTANTS Emit = TRUE
Depth = 8
VIEW View0
CONSTRAINT Short
INVARIANTS RoundTrip NothingElse Untouched
CHECK_DEADLOCK FALSE

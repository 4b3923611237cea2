SPECIFICATION Spec
CONSTANTS Emit = FALSE
Depth = 40
VIEW View0
CONSTRAINT Short
INVARIANTS RoundTrip NothingElse Untouched
CHECK_DEADLOCK FALSE

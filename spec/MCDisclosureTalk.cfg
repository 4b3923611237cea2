SPECIFICATION Spec
CONSTANT Talkative = TRUE
INVARIANT NothingRevealed

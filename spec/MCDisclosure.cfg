SPECIFICATION Spec
CONSTANT Talkative = FALSE
INVARIANT NothingRevealed OneKeyIsAll

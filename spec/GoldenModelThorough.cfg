SPECIFICATION Spec
CONSTANTS Lo = 1 Up = 24 Levels = 3 Fixed = FALSE
INVARIANTS InRange Whole BestOfLastTwo BestOfAll
PROPERTY Terminates

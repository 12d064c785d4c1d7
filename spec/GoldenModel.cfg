SPECIFICATION Spec
CONSTANTS Lo = 1 Up = 14 Levels = 3 Fixed = FALSE
INVARIANTS InRange Whole BestOfLastTwo BestOfAll
PROPERTY Terminates

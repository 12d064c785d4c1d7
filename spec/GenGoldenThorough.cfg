SPECIFICATION Spec
CONSTANTS Lo = 1 Up = 13 Levels = 3 Fixed = FALSE
INVARIANTS Emit

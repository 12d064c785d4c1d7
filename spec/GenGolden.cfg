SPECIFICATION Spec
CONSTANTS Lo = 1 Up = 9 Levels = 3 Fixed = FALSE
INVARIANTS Emit

SPECIFICATION Spec
CONSTANTS N = 2 Levels = 3 Thresholds = {0, 1, 2, 9}
INVARIANTS NonEmptySubset Evaluations Emit
PROPERTY Terminates

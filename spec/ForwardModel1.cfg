SPECIFICATION Spec
CONSTANTS N = 1 Levels = 3 Thresholds = {0, 1, 2, 9}
INVARIANTS NonEmptySubset Evaluations Emit
PROPERTY Terminates

SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3} NCells = 4 Vals = {1, 2}
INVARIANTS Exclusive NoLeak NoDangling Represents

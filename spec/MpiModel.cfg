SPECIFICATION Spec
CONSTANTS MaxP = 4 MaxN = 6 Agree = TRUE
INVARIANTS Partition Complete Alike Failure
PROPERTY AllEnd

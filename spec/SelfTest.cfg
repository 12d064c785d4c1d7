CONSTANT Rounds = 300
INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE

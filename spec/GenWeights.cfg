INIT Init
NEXT Next
CONSTANTS MaxN = 4 MaxD = 3
INVARIANT Emit

INIT Init
NEXT Next
CONSTANTS MaxN = 6 MaxD = 3
INVARIANT Emit

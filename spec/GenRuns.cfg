INIT Init
NEXT Next
CONSTANTS K = 7

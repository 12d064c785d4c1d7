INIT Init
NEXT Next
CONSTANTS K = 2

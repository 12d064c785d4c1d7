INIT Init
NEXT Next
CONSTANTS K = 24 Mode = "walk"

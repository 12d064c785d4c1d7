INIT MpiInit
NEXT MpiNext
CONSTANTS K = 7

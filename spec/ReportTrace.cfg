INIT TellInit
NEXT TellNext

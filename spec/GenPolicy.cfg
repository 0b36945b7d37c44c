INIT Init
NEXT GenNext

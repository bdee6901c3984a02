CONSTANT Sample = 8000
INIT Init
NEXT Next
INVARIANT Inv

CONSTANT Sample = 500
INIT Init
NEXT Next
INVARIANT Inv

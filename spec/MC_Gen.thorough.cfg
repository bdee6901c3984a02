CONSTANT Sample = 6000
INIT Init
NEXT Next
INVARIANT Inv

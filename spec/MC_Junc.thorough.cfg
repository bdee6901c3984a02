CONSTANT Sample = 2500
INIT Init
NEXT Next
INVARIANTS Refused Wired Fits

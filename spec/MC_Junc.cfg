CONSTANT Sample = 300
INIT Init
NEXT Next
INVARIANTS Refused Wired Fits

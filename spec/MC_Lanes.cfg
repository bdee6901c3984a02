CONSTANTS
 Sample = 500
 Max = 2
INIT Init
NEXT Next
INVARIANTS Refused Complete Reciprocal Single

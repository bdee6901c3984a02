CONSTANTS
 Sample = 8000
 Max = 3
INIT Init
NEXT Next
INVARIANTS Refused Complete Reciprocal Single

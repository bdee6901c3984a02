CONSTANTS
 Sample = 16000
INIT Init
NEXT Next
INVARIANTS Centres EachOnce Table

CONSTANTS
 Sample = 160000
INIT Init
NEXT Next
INVARIANTS Centres EachOnce Table

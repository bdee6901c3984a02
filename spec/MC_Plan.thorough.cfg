CONSTANTS
 K = 3
 Poses = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS BothWays InOrder

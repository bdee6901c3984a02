CONSTANTS
 K = 2
 Poses = {1, 2}
INIT Init
NEXT Next
INVARIANTS BothWays InOrder

CONSTANTS
 Sample = 1
INIT Init
NEXT Next
INVARIANTS SameAsAdjusting SameRefusal
PROPERTY OnlyThePair

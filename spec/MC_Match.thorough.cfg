CONSTANTS
 Sample = 24
INIT Init
NEXT Next
INVARIANTS SameAsAdjusting SameRefusal
PROPERTY OnlyThePair

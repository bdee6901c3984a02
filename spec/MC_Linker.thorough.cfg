CONSTANTS
 Secs = 3
 Pairs <- ThoroughPairs
 MaxPairs = 2
INIT Init
NEXT Next
INVARIANT Exactly

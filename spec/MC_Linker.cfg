CONSTANTS
 Secs = 2
 Pairs <- QuickPairs
 MaxPairs = 2
INIT Init
NEXT Next
INVARIANT Exactly

CONSTANTS
 Sample = 4000
 Kinds = {"chain", "gen", "junc", "side"}
INIT Init
NEXT Next
INVARIANT Isolated

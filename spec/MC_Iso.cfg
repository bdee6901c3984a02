CONSTANTS
 Sample = 400
 Kinds = {"chain", "gen", "junc", "side"}
INIT Init
NEXT Next
INVARIANT Isolated

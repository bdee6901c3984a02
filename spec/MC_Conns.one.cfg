CONSTANTS
 K = 5
 Juncs = {"J"}
 Ids = {"~", "0", "1", "2", "3"}
 Pool = {"0", "1", "2", "3", "4"}
INIT Init
NEXT Next
INVARIANT Unique

CONSTANTS
 K = 3
 Juncs = {"J", "L"}
 Ids = {"~", "0", "1", "2"}
 Pool = {"0", "1", "2", "3"}
INIT Init
NEXT Next
INVARIANT Unique

CONSTANTS
 K = 4
 Juncs = {"J", "L"}
 Ids = {"~", "0", "1", "2"}
 Pool = {"0", "1", "2", "3"}
INIT Init
NEXT Next
INVARIANT Unique

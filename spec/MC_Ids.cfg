CONSTANTS
 K = 2
 Ids = {"~", "0", "1", "2"}
 Pool = {"0", "1", "2", "3", "4"}
INIT Init
NEXT Next
INVARIANT Unique
INVARIANT Respect

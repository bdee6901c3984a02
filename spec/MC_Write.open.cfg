CONSTANTS
 K = 3
 Start = "open"
INIT Init
NEXT Next
INVARIANT OnlyChanges
PROPERTY LooksAreSilent

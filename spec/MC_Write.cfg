CONSTANTS
 K = 3
 Start = "adjusted"
INIT Init
NEXT Next
INVARIANT OnlyChanges
PROPERTY LooksAreSilent

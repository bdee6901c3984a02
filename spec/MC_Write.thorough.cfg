CONSTANTS
 K = 4
 Start = "adjusted"
INIT Init
NEXT Next
INVARIANT OnlyChanges
PROPERTY LooksAreSilent

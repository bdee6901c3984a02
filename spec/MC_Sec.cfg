CONSTANTS
 K = 3
INIT Init
NEXT Next
INVARIANTS Numbered Once Contig
PROPERTY Stable

CONSTANTS
 K = 5
INIT Init
NEXT Next
INVARIANTS Numbered Once Contig
PROPERTY Stable

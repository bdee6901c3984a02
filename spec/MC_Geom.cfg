CONSTANTS
 K = 2
 Poses = 2
 Fine = FALSE
INIT Init
NEXT Next
INVARIANTS Inverse ArcForms Turns Sides Mirror Halves

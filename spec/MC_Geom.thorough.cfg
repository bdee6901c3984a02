CONSTANTS
 K = 3
 Poses = 3
 Fine = TRUE
INIT Init
NEXT Next
INVARIANTS Inverse ArcForms Turns Sides Mirror Halves

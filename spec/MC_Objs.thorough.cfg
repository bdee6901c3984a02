CONSTANT Sample = 600
INIT Init
NEXT Next
INVARIANTS AsGiven Default Same Shape

CONSTANT Sample = 60
INIT Init
NEXT Next
INVARIANTS AsGiven Default Same Shape

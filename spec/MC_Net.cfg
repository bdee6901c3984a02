CONSTANT Sample = 12000
INIT Init
NEXT Next
INVARIANTS Confluent Meets Mirrored

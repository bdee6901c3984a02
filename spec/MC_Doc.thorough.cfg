CONSTANT Sample = 6000
INIT Init
NEXT Next
INVARIANTS Confluent NothingLost

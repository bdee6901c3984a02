CONSTANT Sample = 500
INIT Init
NEXT Next
INVARIANTS Confluent NothingLost

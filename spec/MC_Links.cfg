CONSTANT K = 3
INIT Init
NEXT Next
INVARIANTS Limits NoTrace
INVARIANT FirstCounts

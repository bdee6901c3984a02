CONSTANT K = 4
INIT Init
NEXT Next
INVARIANTS Limits NoTrace
INVARIANT FirstCounts

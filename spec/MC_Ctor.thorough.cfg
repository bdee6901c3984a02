CONSTANT K = 2
INIT Init
NEXT Next
INVARIANT One_

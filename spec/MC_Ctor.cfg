CONSTANT K = 1
INIT Init
NEXT Next
INVARIANT One_

CONSTANT Sample = 9000
INIT Init
NEXT Next
INVARIANTS LineIff SaysWhatAsked NoInterference Complete

CONSTANT Sample = 900
INIT Init
NEXT Next
INVARIANTS LineIff SaysWhatAsked NoInterference Complete

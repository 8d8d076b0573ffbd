INIT Init
NEXT Next
INVARIANTS ReadsBack Agrees NoPrefix
CHECK_DEADLOCK FALSE

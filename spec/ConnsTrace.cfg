INIT Init
NEXT Next
INVARIANTS Sound Report Trail
CHECK_DEADLOCK FALSE

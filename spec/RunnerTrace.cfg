INIT Init
NEXT Next
INVARIANTS Sound Report Trail
PROPERTIES NoneAfterStop
CHECK_DEADLOCK FALSE

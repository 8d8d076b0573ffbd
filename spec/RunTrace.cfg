INIT Init
NEXT Next
VIEW View
INVARIANTS Report Trail
CHECK_DEADLOCK FALSE

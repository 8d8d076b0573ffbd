INIT Init
NEXT Next
INVARIANTS Every OrderFree Together
CHECK_DEADLOCK FALSE

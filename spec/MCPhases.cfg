INIT Init
NEXT Next
CONSTANTS Lengths = {1, 3, 7} Most = 12
INVARIANTS Partition Within Attributed
CHECK_DEADLOCK FALSE

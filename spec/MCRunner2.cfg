SPECIFICATION Spec
CONSTANTS MaxThreads = 3  MaxNumber = 4  MaxReq = 1  MaxIter = 2
INVARIANTS ShareFair NeverTooMany OneBlockEach OrderKept AtEnd FewHeld
PROPERTIES NoneAfterStop
CHECK_DEADLOCK FALSE

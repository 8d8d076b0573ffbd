SPECIFICATION Spec
CONSTANTS MaxThreads = 2  MaxNumber = 3  MaxReq = 1  MaxIter = 2
INVARIANTS ShareFair NeverTooMany OneBlockEach OrderKept AtEnd FewHeld
PROPERTIES NoneAfterStop Ends
CHECK_DEADLOCK FALSE

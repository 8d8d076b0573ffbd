SPECIFICATION Spec
CONSTANTS Callers = {1, 2} MaxCalls = 2 MaxTries = 2
INVARIANTS OneEach NeverAnothers NothingLeft
PROPERTY AllReturned
CHECK_DEADLOCK FALSE

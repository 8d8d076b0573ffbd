SPECIFICATION Spec
CONSTANTS RaceMin = 2 RaceMax = 2 Jitter = 0 Slack = 0 MaxAddrs = 4 Delays = {0, 1, 3, 5} Never = 99
INVARIANTS OneEach FailsOnlyIfAll UsesFirst Prompt Timely
PROPERTIES NoneAfter Connects Ends
CHECK_DEADLOCK FALSE

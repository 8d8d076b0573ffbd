INIT Init
NEXT Next
CONSTANTS RaceMin = 150 RaceMax = 3000 Jitter = 1000 Slack = 5000
INVARIANT Report
CHECK_DEADLOCK FALSE

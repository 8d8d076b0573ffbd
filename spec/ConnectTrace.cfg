INIT Init
NEXT Next
CONSTANTS RaceMin = 150 RaceMax = 250 Jitter = 60 Slack = 150
INVARIANT Report
CHECK_DEADLOCK FALSE

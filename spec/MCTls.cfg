SPECIFICATION Spec
INVARIANTS OnlyGood NeverPlain
PROPERTIES EndsUp Served
CHECK_DEADLOCK FALSE

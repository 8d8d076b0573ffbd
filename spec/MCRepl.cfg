SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS EndsAt EofAt
PROPERTIES OneAnswer Keeps NoParseNoChange ReadOnly Latest EndsOnce Ends

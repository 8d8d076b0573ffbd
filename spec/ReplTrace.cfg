INIT TInit
NEXT TNext
VIEW View
INVARIANT Report
INVARIANT Conforms

------------------------------- MODULE Args -------------------------------
(* The numbers of a run as given on the command line.                       *)
EXTENDS Text, Big

Digits1(t) == LET d == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
              IN IF d # <<>> /\ \A i \in 1..Len(d) : IsDigit(d[i]) THEN d ELSE <<>>
RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == IF n = 0 THEN BNat(1) ELSE BMulS(PowerOfTwo(n - 1), 2)
Below(t, bits) == BCmp(BOfDigits(Digits1(t)), PowerOfTwo(bits)) < 0
(* a number of iterations: 0 .. 2^32 - 1; of threads: at least one *)
NumberOk(t) == Digits1(t) # <<>> /\ Below(t, 32)
ThreadsOk(t) == NumberOk(t) /\ BOfDigits(Digits1(t)) # <<>>
(* a duration: a number of seconds, minutes or hours, below 2^64 seconds *)
Unit(c) == CASE c = 115 -> 1 [] c = 109 -> 60 [] c = 104 -> 3600 [] OTHER -> 0
DurationOk(t) == IF Len(t) < 2 THEN FALSE
                 ELSE LET d == Digits1(SubSeq(t, 1, Len(t) - 1))
                      IN IF d = <<>> \/ Unit(t[Len(t)]) = 0 THEN FALSE
                         ELSE /\ Below(d, 64) /\ BCmp(BMulS(BOfDigits(d), Unit(t[Len(t)])), PowerOfTwo(64)) < 0
===========================================================================

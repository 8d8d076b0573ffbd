------------------------------- MODULE Repl -------------------------------
(* A session: lines are read one by one, each non-blank one is answered.    *)
(*   input   lines not read yet                                             *)
(*   st      what the session knows (bindings, requests): module Lang       *)
(*   answers the answers given so far: <<"value", printed, v>>,             *)
(*           <<"error", printed>> or <<"open">>                             *)
(*   phase   "run", "exit" (line exit read), "eof" (end of input reached)   *)
EXTENDS Lang

VARIABLES input, st, answers, phase
rvars == <<input, st, answers, phase>>

SExit == S("exit")
Blank(t) == \A i \in 1..Len(t) : IsSpace(t[i])
Answer(r) == IF r.o = "ok" THEN <<"value", r.s.out, r.v>>
             ELSE IF r.o = "err" THEN <<"error", r.s.out>> ELSE <<"open">>

RInit(lines, feed, srv) == input = lines /\ st = [NoState EXCEPT !.feed = feed, !.srv = srv] /\ answers = <<>> /\ phase = "run"
ReadBlank == /\ phase = "run" /\ input # <<>>
             /\ Head(input) # SExit /\ Blank(Head(input))
             /\ input' = Tail(input) /\ UNCHANGED <<st, answers, phase>>
ReadText == /\ phase = "run" /\ input # <<>>       \* a whole program: always answered
            /\ LET r == Run(Head(input), st) IN
                 /\ st' = [r.s EXCEPT !.out = <<>>, !.cuts = <<>>]
                 /\ answers' = Append(answers, Answer(r))
            /\ input' = Tail(input) /\ UNCHANGED phase
ReadLine == input # <<>> /\ Head(input) # SExit /\ ~Blank(Head(input)) /\ ReadText
ReadExit == /\ phase = "run" /\ input # <<>> /\ Head(input) = SExit
            /\ phase' = "exit" /\ UNCHANGED <<input, st, answers>>
ReadEof == /\ phase = "run" /\ input = <<>>
           /\ phase' = "eof" /\ UNCHANGED <<input, st, answers>>
RNext == ReadBlank \/ ReadLine \/ ReadExit \/ ReadEof
===========================================================================

----------------------------- MODULE ConnsTrace -----------------------------
(* Validates recorded sessions against Conns (one caller): events in the    *)
(* order of time                                                            *)
(*   call            a line that makes a call is about to be read           *)
(*   start a, ok a, fail a   an attempt (numbered) begins, is answered      *)
(*   use a           the request arrived over that connection               *)
(*   over            the answer to the line has been printed                *)
(*   held n m k      after a while without events: n sockets are open,      *)
(*                   m other files, k threads are alive                     *)
EXTENDS Conns, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, pos
vars == <<nvars, case, pos>>
C == Cases[case]
E == C.events[pos]
More == pos <= Len(C.events)
Init == case \in 1..Len(Cases) /\ pos = 1 /\ NInit({1})
Of1(a) == {s \in socks : s.a = a}
CanDrop == \E s \in socks : Idle(s)
Hidden == /\ UNCHANGED <<case, pos>> /\ \E s \in socks : Idle(s) /\ Drop(s)
Event == /\ More /\ ~CanDrop
         /\ CASE E.k = "call" -> Call(1)
              [] E.k = "start" -> Try(1, E.n)
              [] E.k = "ok" -> \E s \in Of1(E.n) : Accepted(s)
              [] E.k = "fail" -> \E s \in Of1(E.n) : Refused(s)
              [] E.k = "use" -> \E s \in Of1(E.n) : Use(s)
              [] E.k = "over" -> Over(1) \/ GiveUp(1)
              [] E.k = "held" -> /\ E.n = Cardinality(socks) /\ E.m = 0 /\ E.t = 1 + Cardinality(Trying)
                                 /\ UNCHANGED nvars
              [] OTHER -> FALSE
         /\ pos' = pos + 1 /\ UNCHANGED case
Next == Hidden \/ Event
Sound == OneEach /\ NeverAnothers /\ NothingLeft
Report == ~More => PrintT(<<"CASE", "ok", case, pos>>)
Trail == "DIAG" \in DOMAIN IOEnv => PrintT(<<"TRAIL", pos, <<0>>>>)
===========================================================================

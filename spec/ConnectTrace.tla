---------------------------- MODULE ConnectTrace ----------------------------
(* Validates recorded connecting: every case holds                          *)
(*   addrs    what the name resolved to, in this order                      *)
(*   t0       when it was resolved, in milliseconds                         *)
(*   events   in the order of time, each with a time t:                     *)
(*     start a, ok a, fail a    an attempt begun, connected, refused        *)
(*     use a                    the request arrived there                   *)
(*     failed                   the process ended, the call failed          *)
(*     ended                    the process ended                           *)
(*     alive                    the process was still waiting               *)
(*   others   what else arrived at the servers                              *)
(*   store    what each address answers: ok, fail or never                  *)
EXTENDS Connect, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, at, verdict
vars == <<cvars, case, at, verdict>>
C == Cases[case]
Init == /\ case \in 1..Len(Cases) /\ CInit(Cases[case].addrs, Cases[case].t0) /\ at = 0 /\ verdict = "run"
E == C.events[at + 1]
(* time goes on to the next event, nothing being overdue *)
Wait == /\ verdict = "run" /\ at < Len(C.events) /\ now # E.t
        /\ OnTime(E.t, C.t0)
        /\ now' = E.t /\ UNCHANGED <<addrs, begun, answer, spent, used, over, case, at, verdict>>
O == Order(addrs)
Attempt(a) == {i \in 1..Len(begun) : O[i].a = a}
IsStart(j, a) == C.events[j].k = "start" /\ C.events[j].a = a
(* An attempt notes its start on a thread of its own, which may be a moment late: one whose note follows shortly *)
(* has been begun before those noted now.                                                                        *)
Late == 30
Hidden == /\ verdict = "run" /\ at < Len(C.events) /\ now = E.t /\ E.k = "start" /\ Len(begun) < N
          /\ IF Len(begun) < N /\ E.k = "start"
             THEN /\ Attempt(E.a) = {} /\ O[Len(begun) + 1].a # E.a
                  /\ \E j \in (at + 2)..Len(C.events) : C.events[j].t <= now + Late /\ IsStart(j, O[Len(begun) + 1].a)
             ELSE FALSE
          /\ Begin /\ UNCHANGED <<case, at, verdict>>
Noted(a) == /\ Attempt(a) # {} /\ \A j \in 1..at : ~IsStart(j, a)
            /\ UNCHANGED cvars
(* an attempt is over with what the address has in store for it, not before *)
InStore(a, k) == \A j \in 1..Len(C.store) : C.store[j].a = a => C.store[j].k = k
Take == /\ verdict = "run" /\ at < Len(C.events) /\ now = E.t
        /\ CASE E.k = "start" /\ Attempt(E.a) # {} -> Noted(E.a)
             [] E.k = "start" /\ Attempt(E.a) = {} -> /\ Len(begun) < N /\ (IF Len(begun) < N THEN O[Len(begun) + 1].a = E.a ELSE FALSE) /\ Begin
             [] E.k \in {"ok", "fail"} -> InStore(E.a, E.k) /\ \E i \in Attempt(E.a) : Answer(i, E.k)
             [] E.k = "use" -> \E i \in Attempt(E.a) : Use(i)
             [] E.k = "failed" -> GiveUp
             [] E.k = "ended" -> over = "connected" /\ UNCHANGED cvars
             [] E.k = "alive" -> over = "no" /\ UNCHANGED cvars
             [] OTHER -> FALSE
        /\ at' = at + 1 /\ UNCHANGED <<case, verdict>>
Stop == /\ verdict = "run" /\ at = Len(C.events)
        /\ verdict' = IF C.others = <<>> THEN "ok" ELSE "bad: bytes arrived elsewhere"
        /\ UNCHANGED <<cvars, case, at>>
Next == Wait \/ Hidden \/ Take \/ Stop
Report == PrintT(<<"CASE", IF verdict = "run" THEN "run" ELSE verdict, case, at>>)
===========================================================================

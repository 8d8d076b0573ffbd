------------------------------ MODULE MCConns ------------------------------
(* All histories of Callers callers that make up to MaxCalls calls with up  *)
(* to MaxTries attempts each, every attempt answered at any time, or not.   *)
EXTENDS Conns
CONSTANTS Callers, MaxCalls, MaxTries
VARIABLES tries
vars == <<nvars, tries>>
Init == NInit(Callers) /\ tries = [t \in Callers |-> 0]
Begin(t) == no[t] < MaxCalls /\ Call(t) /\ tries' = [tries EXCEPT ![t] = 0]
More(t) == tries[t] < MaxTries /\ Try(t, tries[t] + 1) /\ tries' = [tries EXCEPT ![t] = @ + 1]
Rest(t) == \/ (Over(t) \/ (tries[t] > 0 /\ GiveUp(t)) \/ (\E s \in socks : s.by = t /\ (Refused(s) \/ Accepted(s)))) /\ UNCHANGED tries
Tool(t) == \/ tries[t] = 0 /\ More(t)
           \/ (\E s \in socks : s.by = t /\ (Use(s) \/ Drop(s))) /\ UNCHANGED tries
Next == \E t \in Callers : Begin(t) \/ More(t) \/ Rest(t) \/ Tool(t)
Answers == \E s \in socks : Refused(s) \/ Accepted(s)
Spec == Init /\ [][Next]_vars /\ \A t \in Callers : WF_vars(Tool(t)) /\ WF_vars(Rest(t))
Over0 == \A t \in Callers : no[t] = MaxCalls /\ calls[t] = "idle"
(* when all calls are over and every attempt has been answered nothing is held *)
AllReturned == [](Over0 => <>(socks = {}))
===========================================================================

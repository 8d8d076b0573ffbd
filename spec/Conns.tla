------------------------------- MODULE Conns -------------------------------
(* What calls hold while they run and leave behind: sockets.  A call makes  *)
(* one attempt after another to connect, uses the first connection it gets, *)
(* and gives it back when it is over.  An attempt that outlives its call    *)
(* (connecting cannot be recalled) is given up as soon as it is answered.   *)
EXTENDS Integers, FiniteSets

VARIABLES
    calls,    \* per caller "idle", "connecting" or "using"
    no,       \* per caller: how many calls it has begun
    socks     \* sockets: [by: the caller, no: of which of its calls, a: the attempt, st: "trying", "open", "used"]
nvars == <<calls, no, socks>>

Of(t) == {s \in socks : s.by = t /\ s.no = no[t]}
Current(s) == calls[s.by] = "connecting" /\ s.no = no[s.by]
NInit(callers) == calls = [t \in callers |-> "idle"] /\ no = [t \in callers |-> 0] /\ socks = {}
Call(t) == /\ calls[t] = "idle" /\ calls' = [calls EXCEPT ![t] = "connecting"] /\ no' = [no EXCEPT ![t] = @ + 1] /\ UNCHANGED socks
Try(t, a) == /\ calls[t] = "connecting" /\ socks' = socks \cup {[by |-> t, no |-> no[t], a |-> a, st |-> "trying"]} /\ UNCHANGED <<calls, no>>
Refused(s) == /\ s \in socks /\ s.st = "trying" /\ socks' = socks \ {s} /\ UNCHANGED <<calls, no>>
Accepted(s) == /\ s \in socks /\ s.st = "trying" /\ socks' = (socks \ {s}) \cup {[s EXCEPT !.st = "open"]} /\ UNCHANGED <<calls, no>>
Use(s) == /\ s \in socks /\ s.st = "open" /\ Current(s)
          /\ socks' = (socks \ {s}) \cup {[s EXCEPT !.st = "used"]} /\ calls' = [calls EXCEPT ![s.by] = "using"] /\ UNCHANGED no
(* connections nobody wants any more *)
Idle(s) == s.st = "open" /\ ~Current(s)
Drop(s) == /\ s \in socks /\ Idle(s) /\ socks' = socks \ {s} /\ UNCHANGED <<calls, no>>
Over(t) == /\ calls[t] = "using" /\ calls' = [calls EXCEPT ![t] = "idle"] /\ socks' = {s \in socks : s.by # t \/ s.st # "used"} /\ UNCHANGED no
GiveUp(t) == /\ calls[t] = "connecting" /\ Of(t) = {} /\ calls' = [calls EXCEPT ![t] = "idle"] /\ UNCHANGED <<no, socks>>
NNext == \E t \in DOMAIN calls : Call(t) \/ Over(t) \/ GiveUp(t) \/ (\E s \in socks : s.by = t /\ (Refused(s) \/ Accepted(s) \/ Use(s) \/ Drop(s)))
---------------------------------------------------------------------------
Trying == {s \in socks : s.st = "trying"}
Settled == \A s \in socks : ~Idle(s) /\ ~(s.st = "open" /\ Current(s))
Using == {t \in DOMAIN calls : calls[t] = "using"}
(* a call uses one connection, and that is its own *)
OneEach == \A t \in DOMAIN calls : Cardinality({s \in socks : s.by = t /\ s.st = "used"}) = (IF calls[t] = "using" THEN 1 ELSE 0)
NeverAnothers == \A s \in socks : s.st = "used" => s.no = no[s.by]
(* however many calls there have been: what is open belongs to a call under way *)
NothingLeft == Settled => Cardinality(socks \ Trying) = Cardinality(Using)
===========================================================================

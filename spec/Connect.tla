------------------------------ MODULE Connect ------------------------------
(* Connecting to a host with several addresses: attempts are begun one      *)
(* after another, IPv6 and IPv4 in turn; the next one as soon as one of     *)
(* those begun has failed, or when the latest has not answered within the   *)
(* race delay; the first connection established is used.                    *)
(* Time is a number; in recordings of real runs it is measured, so the      *)
(* bounds leave room: RaceMin..RaceMax for the delay, Jitter for what was   *)
(* under way when a connection was established, Slack for being slow.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS RaceMin, RaceMax, Jitter, Slack
VARIABLES
    addrs,     \* what the name resolved to: seq of [a: the address, six: is it IPv6]
    now,
    begun,     \* seq of the times the attempts were begun, in the order of Order(addrs)
    answer,    \* per attempt [k: "none", "ok", "fail", t: when]
    spent,     \* failures that have already made the next attempt begin
    used,      \* the attempt whose connection is used, 0: none
    over       \* "no", "connected", "failed"
cvars == <<addrs, now, begun, answer, spent, used, over>>

RECURSIVE Alternate(_, _)
Alternate(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x ELSE <<x[1], y[1]>> \o Alternate(Tail(x), Tail(y))
Order(as) == Alternate(SelectSeq(as, LAMBDA a : a.six), SelectSeq(as, LAMBDA a : ~a.six))
N == Len(addrs)
None == [k |-> "none", t |-> 0]
CInit(as, t) == /\ addrs = as /\ now = t /\ begun = <<>> /\ answer = [i \in 1..Len(as) |-> None]
                /\ spent = 0 /\ used = 0 /\ over = "no"

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Later(a, b) == IF a >= b THEN a ELSE b
Failures == {i \in 1..N : answer[i].k = "fail"}
Oks == {i \in 1..N : answer[i].k = "ok"}
FirstOk == Least({answer[i].t : i \in Oks})
Latest == begun[Len(begun)]
(* a failure that has not yet made an attempt begin *)
Owed == Cardinality(Failures) > spent
(* when the k-th failure came *)
FailedAt(k) == Least({answer[i].t : i \in {j \in Failures : Cardinality({x \in Failures : answer[x].t <= answer[j].t}) >= k}})
(* until when the next attempt has to be begun *)
DueAt(t0) == IF begun = <<>> THEN t0 ELSE IF Owed THEN Later(Latest, FailedAt(spent + 1)) ELSE Latest + RaceMax
MayBegin == IF over # "no" \/ Len(begun) = N THEN FALSE
            ELSE IF IF Oks = {} THEN FALSE ELSE now > FirstOk + Jitter THEN FALSE
            ELSE IF begun = <<>> THEN TRUE
            ELSE Owed \/ now - Latest >= RaceMin
Begin == /\ MayBegin
         /\ begun' = Append(begun, now)
         /\ \/ begun # <<>> /\ Owed /\ spent' = spent + 1
            \/ (IF begun = <<>> THEN TRUE ELSE now - Latest >= RaceMin) /\ spent' = spent
         /\ UNCHANGED <<addrs, now, answer, used, over>>
Answer(i, k) == /\ i <= Len(begun) /\ answer[i].k = "none"
                /\ answer' = [answer EXCEPT ![i] = [k |-> k, t |-> now]]
                /\ UNCHANGED <<addrs, now, begun, spent, used, over>>
(* the first connection established is used *)
Use(i) == /\ over = "no" /\ i \in Oks /\ IF i \in Oks THEN answer[i].t <= FirstOk + Jitter ELSE FALSE
          /\ used' = i /\ over' = "connected" /\ UNCHANGED <<addrs, now, begun, answer, spent>>
(* the call fails only once every address has *)
GiveUp == /\ over = "no" /\ Failures = 1..N
          /\ over' = "failed" /\ UNCHANGED <<addrs, now, begun, answer, spent, used>>
(* nothing is overdue at t: neither an attempt, nor using a connection, nor giving up *)
OnTime(t, t0) ==
    IF over # "no" THEN TRUE
    ELSE IF Oks # {} THEN t <= FirstOk + Slack
    ELSE IF Len(begun) < N THEN t <= DueAt(t0) + Slack
    ELSE IF Failures = 1..N THEN t <= (IF N = 0 THEN t0 ELSE Greatest({answer[i].t : i \in Failures})) + Slack
    ELSE TRUE
===========================================================================

----------------------------- MODULE MCConnect -----------------------------
(* Connect over all hosts of up to MaxAddrs addresses, each accepting or    *)
(* refusing after each of the delays, or never answering; and the order of  *)
(* attempts over all lists of up to 6 addresses of either family.           *)
EXTENDS Connect, TLC
CONSTANTS MaxAddrs, Delays, Never
VARIABLES net      \* per attempt, in order: [d: delay, ok]
vars == <<cvars, net>>
Nets == [d : Delays, ok : BOOLEAN] \cup {[d |-> Never, ok |-> FALSE]}
Init == \E n \in 1..MaxAddrs :
        /\ CInit([i \in 1..n |-> [a |-> i, six |-> FALSE]], 0)
        /\ net \in [1..n -> Nets]
Arrives(i) == IF i <= Len(begun) THEN answer[i].k = "none" /\ net[i].d # Never /\ begun[i] + net[i].d <= now ELSE FALSE
BeginNow == IF ~MayBegin \/ Oks # {} THEN FALSE ELSE IF begun = <<>> THEN TRUE ELSE Owed \/ now - Latest >= RaceMax
(* what is possible at this moment happens before time goes on *)
Urgent == (over = "no" /\ (Oks # {} \/ Failures = 1..N)) \/ BeginNow \/ (\E i \in 1..N : Arrives(i))
Waits == \E i \in 1..N : i <= Len(begun) /\ answer[i].k = "none" /\ net[i].d # Never
Tick == /\ ~Urgent /\ over = "no" /\ (Waits \/ Len(begun) < N) /\ now' = now + 1 /\ UNCHANGED <<addrs, begun, answer, spent, used, over, net>>
Step == /\ \/ Oks = {} /\ Begin
           \/ \E i \in 1..N : Arrives(i) /\ Answer(i, IF net[i].ok THEN "ok" ELSE "fail")
           \/ \E i \in 1..N : Use(i)
           \/ GiveUp
        /\ UNCHANGED net
Next == Step \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Accepts(i) == net[i].ok /\ net[i].d # Never
(* properties of the race *)
OneEach == Len(begun) <= N
FailsOnlyIfAll == over = "failed" => \A i \in 1..N : ~Accepts(i) /\ answer[i].k = "fail"
UsesFirst == over = "connected" => answer[used].t = FirstOk /\ net[used].ok
(* an address that never answers costs no more than the race delay *)
Prompt == over = "connected" => \A i \in 1..N : Accepts(i) => now <= (i - 1) * RaceMax + net[i].d
NoneAfter == [][over = "connected" => begun' = begun]_vars
Timely == OnTime(now, 0)
Connects == (\E i \in 1..N : Accepts(i)) ~> (over = "connected")
Ends == (\A i \in 1..N : net[i].d # Never) ~> (over # "no")
(* properties of the order *)
Lists == UNION {[1..n -> BOOLEAN] : n \in 0..6}
ASSUME \A f \in Lists :
    LET as == [i \in DOMAIN f |-> [a |-> i, six |-> f[i]]]
        n == Len(as)
        o == Order(as)
    IN /\ Len(o) = n /\ {o[i] : i \in 1..n} = {as[i] : i \in 1..n}          \* each once
       /\ \A i \in 1..(n - 1) : o[i].six = o[i + 1].six => \A j \in (i + 1)..n : o[j].six = o[i].six   \* in turn, until one family has run out
       /\ (\E i \in 1..n : o[i].six) => o[1].six                             \* IPv6 first
       /\ \A i, j \in 1..n : i < j /\ o[i].six = o[j].six => o[i].a < o[j].a   \* otherwise as resolved
===========================================================================

---------------------------- MODULE RunnerTrace ----------------------------
(* Validates the events of recorded runs against Runner.  A recording:      *)
(*   threads, number, all, timed   as cfg in Runner (number -1: Unbounded)  *)
(*   reqs     requests an iteration makes when it does not fail             *)
(*   fails    seq of <<thread, iteration, requests made>>: where it fails   *)
(*   events   seq of [k, t, n]:                                             *)
(*     "req" t   a request of thread t reached the server                   *)
(*     "resp" t  the server begins to answer thread t                       *)
(*     "tell"    the signal is about to be sent, the duration is about to   *)
(*               be over: from here on the run may stop                     *)
(*     "heard"   the run has had ample time to hear it                      *)
(*     "quiet"   nothing has happened for long although answers are due     *)
(*               from the server only                                       *)
(*     "seen" t n  at least n reports of thread t are in the output         *)
(*     "held" t n   as "quiet", and n sockets and t record files are open   *)
(*     "alive"   nothing has happened for long, and the process is there    *)
(*     "exit"    the process has ended by itself                            *)
(* All else the run does is hidden.  A recording is accepted iff all its    *)
(* events can be taken ("ok" is printed for it).                            *)
EXTENDS Runner, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, pos
vars == <<rvars, case, pos>>
C == Cases[case]
Init == /\ case \in 1..Len(Cases) /\ pos = 1
        /\ RInit([threads |-> C.threads, number |-> C.number, all |-> C.all, timed |-> C.timed])
More == pos <= Len(C.events)
E == C.events[pos]
FailsHere(t) == \E i \in 1..Len(C.fails) : C.fails[i] = <<t, th[t].iter, th[t].req>>
(* steps that nothing but the thread itself decides; they commute, so the first thread that can goes first *)
Urgent(t) == \/ (FailsHere(t) /\ Complete(t, FALSE))
             \/ (~FailsHere(t) /\ th[t].req = C.reqs /\ Complete(t, TRUE))
             \/ Show(t) \/ Close(t) \/ End(t)
CanUrgent(t) == \/ th[t].pc = "busy" /\ (FailsHere(t) \/ th[t].req = C.reqs)
                \/ th[t].pc = "report"
                \/ th[t].pc = "idle" /\ (stopped \/ ~Left(t) \/ th[t].failed)
Silent(t) == C.reqs = 0 \/ \E i \in 1..Len(C.fails) : C.fails[i] = <<t, th[t].iter, 0>>
(* a thread whose request is still to come has to begin before; nothing is lost when it does so at once, in any order *)
Due(t) == th[t].pc = "idle" /\ ~Silent(t) /\ \E j \in pos..Len(C.events) : C.events[j].k = "req" /\ C.events[j].t = t
Settled == \A t \in Threads : ~CanUrgent(t)
Hidden == /\ \/ \E t \in Threads : CanUrgent(t) /\ (\A u \in 1..(t - 1) : ~CanUrgent(u)) /\ Urgent(t)
             \/ \E t \in Threads : Settled /\ Due(t) /\ (\A u \in 1..(t - 1) : ~Due(u)) /\ Begin(t)
             \/ Settled /\ More /\ \E t \in Threads : Silent(t) /\ Begin(t)
             \/ Settled /\ (Hear \/ Statistics)
          /\ UNCHANGED <<case, pos>>
(* nothing is left to do but wait for the servers *)
Waiting == (\A t \in Threads : th[t].pc \in {"await", "done"}) /\ (\E t \in Threads : th[t].pc = "await")
Reports(t) == Cardinality({i \in 1..Len(log) : log[i][1] = t})
Event == /\ Settled /\ More
         /\ CASE E.k = "req" -> ~FailsHere(E.t) /\ th[E.t].req < C.reqs /\ Request(E.t)
              [] E.k = "resp" -> Respond(E.t)
              [] E.k = "tell" -> IF told = "no" THEN Tell ELSE UNCHANGED rvars
              [] E.k = "heard" -> told = "heard" /\ UNCHANGED rvars
              [] E.k = "quiet" -> Waiting /\ UNCHANGED rvars
              [] E.k = "seen" -> Reports(E.t) >= E.n /\ UNCHANGED rvars
              [] E.k = "held" -> Waiting /\ E.n = Cardinality(Connected) /\ E.t = (IF C.rec THEN Cardinality(Recording) ELSE 0) /\ UNCHANGED rvars
              [] E.k = "alive" -> ~exited /\ (\E t \in Threads : th[t].pc # "done") /\ UNCHANGED rvars
              [] E.k = "exit" -> Exit
              [] OTHER -> FALSE
         /\ pos' = pos + 1 /\ UNCHANGED case
Next == Hidden \/ Event
Report == ~More => PrintT(<<"CASE", "ok", case, pos>>)
Trail == "DIAG" \in DOMAIN IOEnv => PrintT(<<"TRAIL", pos, <<0>>>>)
(* every property of the design also holds of what was observed *)
Sound == NeverTooMany /\ OneBlockEach /\ OrderKept /\ AtEnd /\ FewHeld
===========================================================================

------------------------------ MODULE Runner ------------------------------
(* How a run of tests proceeds, whatever the tests say: threads begin       *)
(* iterations, make requests, wait for the answers, complete the iteration  *)
(* (report, record, count) and stop when they have done their share, have   *)
(* failed, or the run has been told to stop.  Finally the statistics are    *)
(* printed and the process ends.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Unbounded == -1       \* a share that is never done

VARIABLES
    cfg,      \* [threads, number (or Unbounded), all: are all tests run, one per thread, timed: has it a duration]
    th,       \* per thread [pc, iter, req, failed]; pc: "idle", "busy", "await", "report", "done"
    stopped,  \* no further iteration is to begin
    told,     \* "no", "asked" (the signal was sent, the time is up), "heard"
    log,      \* the reports printed: <<thread, iteration, request>>
    file,     \* per thread the blocks written: number of records of each
    sent,     \* the records handed to the statistics
    stat,     \* what the statistics said: -1 before they are printed, otherwise the count
    exited
rvars == <<cfg, th, stopped, told, log, file, sent, stat, exited>>

Threads == 1..cfg.threads
Share(t) == IF cfg.all THEN 1
            ELSE IF cfg.number = Unbounded THEN Unbounded
            ELSE cfg.number \div cfg.threads + (IF t <= cfg.number % cfg.threads THEN 1 ELSE 0)
Left(t) == Share(t) = Unbounded \/ th[t].iter < Share(t)
Fresh == [pc |-> "idle", iter |-> 0, req |-> 0, rep |-> 0, failed |-> FALSE]
RInit(c) == /\ cfg = c /\ th = [t \in 1..c.threads |-> Fresh] /\ stopped = FALSE /\ told = "no"
            /\ log = <<>> /\ file = [t \in 1..c.threads |-> <<>>] /\ sent = 0 /\ stat = -1 /\ exited = FALSE
Set(t, x) == th' = [th EXCEPT ![t] = x]

(* a thread looks at the flag, then begins: the flag may be raised between *)
Begin(t) == /\ ~exited /\ th[t].pc = "idle" /\ ~stopped /\ Left(t) /\ ~th[t].failed
            /\ Set(t, [th[t] EXCEPT !.pc = "busy", !.req = 0, !.rep = 0])
            /\ UNCHANGED <<cfg, stopped, told, log, file, sent, stat, exited>>
Request(t) == /\ th[t].pc = "busy" /\ Set(t, [th[t] EXCEPT !.pc = "await", !.req = @ + 1])
              /\ UNCHANGED <<cfg, stopped, told, log, file, sent, stat, exited>>
Respond(t) == /\ th[t].pc = "await" /\ Set(t, [th[t] EXCEPT !.pc = "busy"])
              /\ UNCHANGED <<cfg, stopped, told, log, file, sent, stat, exited>>
(* the statements of the iteration are done, or one of them failed *)
Complete(t, ok) == /\ th[t].pc = "busy" /\ Set(t, [th[t] EXCEPT !.pc = "report", !.failed = ~ok])
                   /\ UNCHANGED <<cfg, stopped, told, log, file, sent, stat, exited>>
Show(t) == /\ th[t].pc = "report" /\ th[t].rep < th[t].req
            /\ Set(t, [th[t] EXCEPT !.rep = @ + 1]) /\ log' = Append(log, <<t, th[t].iter, th[t].rep>>)
            /\ UNCHANGED <<cfg, stopped, told, file, sent, stat, exited>>
Close(t) == /\ th[t].pc = "report" /\ th[t].rep = th[t].req
            /\ Set(t, [th[t] EXCEPT !.pc = "idle", !.iter = @ + 1])
            /\ file' = [file EXCEPT ![t] = Append(@, th[t].req)] /\ sent' = sent + th[t].req
            /\ UNCHANGED <<cfg, stopped, told, log, stat, exited>>
End(t) == /\ th[t].pc = "idle" /\ (stopped \/ ~Left(t) \/ th[t].failed)
          /\ Set(t, [th[t] EXCEPT !.pc = "done"])
          /\ UNCHANGED <<cfg, stopped, told, log, file, sent, stat, exited>>
(* the signal arrives or the duration elapses; only runs of a named test listen *)
Tell == /\ told = "no" /\ told' = "asked" /\ UNCHANGED <<cfg, th, stopped, log, file, sent, stat, exited>>
Hear == /\ told = "asked" /\ ~cfg.all /\ told' = "heard" /\ stopped' = TRUE /\ UNCHANGED <<cfg, th, log, file, sent, stat, exited>>
Statistics == /\ stat = -1 /\ \A t \in Threads : th[t].pc = "done"
              /\ stat' = sent /\ UNCHANGED <<cfg, th, stopped, told, log, file, sent, exited>>
Exit == /\ stat # -1 /\ ~exited /\ exited' = TRUE /\ UNCHANGED <<cfg, th, stopped, told, log, file, sent, stat>>

(* what the run does by itself, without the servers and the user *)
Inner(t) == Begin(t) \/ Request(t) \/ Complete(t, TRUE) \/ Complete(t, FALSE) \/ Show(t) \/ Close(t) \/ End(t)
RNext == (\E t \in Threads : Inner(t) \/ Respond(t)) \/ Tell \/ Hear \/ Statistics \/ Exit
RFair == /\ WF_rvars(Statistics) /\ WF_rvars(Exit) /\ WF_rvars(Hear)
---------------------------------------------------------------------------
(* properties *)
(* what a run holds: a connection for each request under way, the record file of each thread at work *)
Connected == {t \in Threads : th[t].pc = "await"}
Recording == {t \in Threads : th[t].pc # "done"}
FewHeld == Cardinality(Connected) <= cfg.threads /\ (exited => Connected = {} /\ Recording = {})
Sum(f, S) == LET RECURSIVE go(_)
                 go(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN f[x] + go(R \ {x})
             IN go(S)
Made == Sum([t \in Threads |-> Sum([k \in 1..Len(file[t]) |-> file[t][k]], 1..Len(file[t])) + (IF th[t].pc \in {"busy", "await", "report"} THEN th[t].req ELSE 0)], Threads)
ShareFair == cfg.number # Unbounded /\ ~cfg.all =>
             /\ Sum([t \in Threads |-> Share(t)], Threads) = cfg.number
             /\ \A a, b \in Threads : Share(a) - Share(b) \in {-1, 0, 1}
NeverTooMany == \A t \in Threads : Share(t) # Unbounded => th[t].iter <= Share(t)
OneBlockEach == \A t \in Threads : Len(file[t]) = th[t].iter
(* reports of one thread come in the order of its requests, each once *)
Before(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])
OrderKept == \A i, j \in 1..Len(log) : i < j /\ log[i][1] = log[j][1] => Before(log[i], log[j])
AtEnd == exited => /\ stat = Made /\ Len(log) = Made
                   /\ (~stopped => \A t \in Threads : th[t].failed \/ th[t].iter = Share(t))
                   /\ \A t \in Threads : th[t].pc = "done"
NoneAfterStop == [][stopped => \A t \in Threads : ~(th[t].pc = "idle" /\ th'[t].pc = "busy")]_rvars
===========================================================================

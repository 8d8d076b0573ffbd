----------------------------- MODULE MCRunner -----------------------------
(* All runs of up to MaxThreads threads, MaxNumber iterations and MaxReq    *)
(* requests per iteration, stopped at any moment or not, every iteration    *)
(* possibly failing; unbounded runs (those with a duration) are cut at      *)
(* MaxIter iterations by fairness of the stop.                              *)
EXTENDS Runner
CONSTANTS MaxThreads, MaxNumber, MaxReq, MaxIter

Init == \E c \in [threads : 1..MaxThreads, number : (1..MaxNumber) \cup {Unbounded}, all : BOOLEAN, timed : BOOLEAN] :
            /\ (c.all => c.number = 1 /\ ~c.timed)
            /\ c.timed = (c.number = Unbounded)
            /\ RInit(c)
Step(t) == IF th[t].pc = "busy" THEN (th[t].req < MaxReq /\ Request(t)) \/ Complete(t, TRUE) \/ Complete(t, FALSE)
           ELSE IF th[t].pc = "idle" /\ Share(t) = Unbounded /\ th[t].iter >= MaxIter /\ ~stopped THEN FALSE ELSE Inner(t)
(* a run with a duration is told, any other may be *)
TellOnce == (cfg.timed \/ ~cfg.all) /\ Tell
Next == (\E t \in Threads : Step(t) \/ Respond(t)) \/ TellOnce \/ Hear \/ Statistics \/ Exit
Spec == Init /\ [][Next]_rvars /\ RFair
        /\ WF_rvars(cfg.timed /\ Tell)
        /\ \A t \in 1..MaxThreads : WF_rvars(t \in Threads /\ (Step(t) \/ Respond(t)))
(* interchangeable threads give the same behaviours; what the log holds of others does not matter *)
View == <<cfg, th, stopped, told, log, sent, stat, exited>>
Ends == <>exited
===========================================================================

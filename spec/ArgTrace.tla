----------------------------- MODULE ArgTrace -----------------------------
(* Validates recorded invocations: a case is [flags: seq of <<kind, text>>, *)
(* kind one of "number", "threads", "duration"; ran: did anything of the    *)
(* program run (output of its top-level statements, requests, record        *)
(* files); said: was there a message; ended: did the process end by itself] *)
EXTENDS Args, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, verdict
Usable(f) == CASE f[1] = "number" -> NumberOk(f[2]) [] f[1] = "threads" -> ThreadsOk(f[2]) [] OTHER -> DurationOk(f[2])
Good(c) == \A i \in 1..Len(c.flags) : Usable(c.flags[i])
Init == case \in 1..Len(Cases) /\ verdict = "run"
Next == /\ verdict = "run" /\ UNCHANGED case
        /\ LET c == Cases[case] IN
           verdict' = IF ~c.ended THEN "bad:does not end"
                      ELSE IF Good(c) THEN (IF c.ran THEN "ok" ELSE "bad:usable but nothing ran")
                      ELSE IF c.ran THEN "bad:unusable but something ran" ELSE IF c.said THEN "ok" ELSE "bad:rejected without a message"
Report == verdict # "run" => PrintT(<<"CASE", verdict, case, 0>>)
===========================================================================

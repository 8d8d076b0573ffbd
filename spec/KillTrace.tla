----------------------------- MODULE KillTrace -----------------------------
(* Validates the record files of runs of a named test that ended at any     *)
(* moment (killed, or looked at while running).  A case is as in RunTrace   *)
(* with                                                                     *)
(*   finished   per thread: iterations known to have been finished before   *)
(* Every file is a prefix of the stream of the run: nothing or part of the  *)
(* header, then whole blocks, then part of a block; every block says what   *)
(* its iteration exchanged; the blocks of all finished iterations are       *)
(* there.                                                                   *)
EXTENDS Report, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, thr, st, k, verdict
vars == <<case, thr, st, k, verdict>>
C == Cases[case]
ExchOf(t) == SelectSeq(C.exch, LAMBDA e : e.t = t)
Feed(es) == [i \in 1..Len(es) |-> Response(es[i])]
BytesOf(t) == C.records[t + 1].bytes
(* a file cut within the header *)
RECURSIVE IsPrefix0(_, _)
IsPrefix0(b, h) == Len(b) <= Len(h) /\ \A i \in 1..Len(b) : b[i] = h[i]
FileAt(t) == LET b == BytesOf(t)
                 h == Header(b)
             IN IF h.ok THEN BlocksAt(h, b, h.next, <<>>)
                ELSE IF IsPrefix0(b, Magic) \/ StartsAt(b, 1, Magic)
                THEN [ok |-> ~Has(C, "header") \/ IsPrefix0(b, C.header), whole |-> FALSE, blocks |-> <<>>]
                ELSE [ok |-> FALSE, whole |-> FALSE, blocks |-> <<>>]
Init == /\ case \in 1..Len(Cases) /\ thr = -1 /\ st = [s |-> NoState, top |-> NoState, prog |-> NoProgram, blocks |-> <<>>, used |-> 0] /\ k = 0 /\ verdict = "run"
Ends(v) == verdict' = v /\ UNCHANGED <<case, thr, st, k>>
Top == /\ verdict = "run" /\ thr = -1
       /\ LET p == Parse(C.text)
              r == EvalBlock(p.exprs, 1, Null, [NoState EXCEPT !.reqs = p.requests, !.feed = Feed(ExchOf(-1)), !.srv = ServersOf(C)])
          IN IF ~p.ok \/ r.o # "ok" THEN Ends("bad:top level")
             ELSE thr' = 0 /\ st' = [st EXCEPT !.prog = p, !.top = [r.s EXCEPT !.out = <<>>, !.cuts = <<>>, !.recs = <<>>]] /\ k' = 0 /\ UNCHANGED <<case, verdict>>
Open0 == /\ verdict = "run" /\ thr >= 0 /\ thr < C.threads /\ k = 0
         /\ IF thr >= Len(C.records) THEN (IF C.finished[thr + 1] = 0 THEN thr' = thr + 1 /\ UNCHANGED <<case, st, k, verdict>> ELSE Ends("bad:no record file"))
            ELSE LET f == FileAt(thr) IN
                 IF ~f.ok THEN Ends("bad:record file is not a prefix of a valid one")
                 ELSE IF Len(f.blocks) < C.finished[thr + 1] THEN Ends("bad:block of a finished iteration is missing")
                 ELSE /\ st' = [st EXCEPT !.s = [st.top EXCEPT !.feed = Feed(ExchOf(thr))], !.blocks = f.blocks, !.used = 0]
                      /\ k' = 1 /\ UNCHANGED <<case, thr, verdict>>
SentBy(recs) == SelectSeq(recs, LAMBDA r : r.sent)
Block == /\ verdict = "run" /\ k > 0 /\ k <= Len(st.blocks)
         /\ LET r == EvalBlock(st.prog.tests[C.name], 1, Null, st.s)
                b == st.blocks[k]
                es == ExchOf(thr)
                recs == r.s.recs
                wire(i) == IF recs[i].sent THEN es[st.used + Len(SentBy(SubSeq(recs, 1, i)))].wire ELSE <<>>
            IN IF r.o = "any" THEN Ends("open")
               ELSE IF Len(b) # Len(recs) \/ st.used + Len(SentBy(recs)) > Len(es) THEN Ends("bad:records of an iteration")
               ELSE IF \A i \in 1..Len(b) : RecordIs(b[i], C.name, thr, k - 1, i - 1, recs[i], wire(i))
               THEN /\ k' = k + 1 /\ st' = [st EXCEPT !.s = [r.s EXCEPT !.out = <<>>, !.cuts = <<>>, !.recs = <<>>], !.used = @ + Len(SentBy(recs))]
                    /\ UNCHANGED <<case, thr, verdict>>
               ELSE Ends("bad:record differs from what was exchanged")
NextThread == verdict = "run" /\ k > Len(st.blocks) /\ k > 0 /\ thr' = thr + 1 /\ k' = 0 /\ UNCHANGED <<case, st, verdict>>
Stop == verdict = "run" /\ thr = C.threads /\ Ends("ok")
Next == Top \/ Open0 \/ Block \/ NextThread \/ Stop
View == <<case, thr, k, verdict>>
Report == verdict # "run" => PrintT(<<"CASE", verdict, case, 0>>)
===========================================================================

------------------------------ MODULE RunTrace ------------------------------
(* Validates recorded runs of "basjoofan test".  A recording:               *)
(*   text     the program (the source as read), or tree: where it was read  *)
(*   mode     "named" or "all";  name: the test asked for                   *)
(*   threads, number     as asked for (mode "named")                        *)
(*   tests    mode "all": the names of the tests, by thread                 *)
(*   iters    optional: how many iterations each thread had begun when the  *)
(*            run was stopped                                               *)
(*   stat, rec           were -s and -r given                               *)
(*   records  seq of [name, bytes]: the record files; pod: value of POD     *)
(*   srv, exch, files    as in Exchange; every exchange has its thread t    *)
(*   strays   what reached peers whose names no certificate can have        *)
(*            (-1: before the tests)                                        *)
(*   out, end            standard output and how the process ended          *)
(*   snaps               what could be seen while nothing moved, see Prompt *)
(* First the program is evaluated: top-level statements, then every thread  *)
(* on its own, iteration by iteration, fed with the responses its own       *)
(* requests got.  Then the output has to be an interleaving of what the     *)
(* threads print, report by report, followed by the statistics.             *)
EXTENDS Report, Loader, Prompt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, phase, thr, data, outpos, idx, durs, verdict
vars == <<case, phase, thr, data, outpos, idx, durs, verdict>>
C == Cases[case]
Source0 == IF Has(C, "tree") THEN SourceOf(C.tree) ELSE C.text
ExchOf(t) == SelectSeq(C.exch, LAMBDA e : e.t = t)
Feed(es) == [i \in 1..Len(es) |-> Response(es[i])]
SentBy(recs) == SelectSeq(recs, LAMBDA r : r.sent)
WiresMatch(es, recs) == LET m == SentBy(recs) IN
    /\ Len(m) = Len(es)
    /\ \A i \in 1..Len(m) : AddressOk(es[i], Request(m[i].msg))
    /\ \A i \in 1..Len(m) : GotRequest(es[i], Request(m[i].msg), FilesOf(C))

NThreads == IF C.mode = "named" THEN C.threads ELSE Len(C.tests)
Quota(t) == IF C.mode = "all" THEN 1 ELSE IF Has(C, "iters") THEN C.iters[t + 1]
            ELSE C.number \div C.threads + (IF t < C.number % C.threads THEN 1 ELSE 0)
TestOf(t) == IF C.mode = "all" THEN C.tests[t + 1] ELSE C.name

Init == /\ case \in 1..Len(Cases) /\ phase = "top" /\ thr = 0 /\ outpos = 1 /\ idx = <<>> /\ durs = <<>> /\ verdict = "run"
        /\ data = [prog |-> NoProgram, top |-> NoState, st |-> NoState, its |-> <<>>, done |-> <<>>, blocks |-> <<>>, chunks |-> <<>>, lims |-> <<>>]
Fails(why) == verdict' = "bad:" \o why /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>>
SNotFound == S("Test not found: ")
ErrorEnd(p) == \* an error line at p, to the end of the output: position after it, 0 if there is none
    IF p < Len(C.out) /\ C.out[Len(C.out)] = 10 /\ SubSeq(C.out, p, Len(C.out)) # SNotFound \o C.name \o <<10>> /\ ~LooksLikeValue(SubSeq(C.out, p, Len(C.out) - 1)) THEN Len(C.out) + 1 ELSE 0

(* what was seen while nothing moved: how much of each thread's output has to be among it *)
Snaps == IF Has(C, "snaps") THEN C.snaps ELSE <<>>
TopSnaps == SelectSeq(Snaps, LAMBDA w : w.top > 0)
ThreadSnaps == SelectSeq(Snaps, LAMBDA w : w.top = 0)
TopShown(s) == LET m == SentBy(s.recs) IN
    \A i \in 1..Len(TopSnaps) : LET w == TopSnaps[i] IN
        /\ w.top <= Len(m)
        /\ w.shown \in LineEnd(s.out, m[w.top].pos)..m[w.top].pos
        /\ \A t \in 1..Len(w.lens) : w.lens[t] = 0
(* the top-level statements *)
Top == /\ phase = "top"
       /\ LET p == Parse(Source0)
              es == ExchOf(-1)
              r == EvalBlock(p.exprs, 1, Null, [NoState EXCEPT !.reqs = p.requests, !.feed = Feed(es), !.srv = ServersOf(C)])
              a == After(C.out, 1, r.s.out)
              quiet == Len(C.exch) = Len(es) /\ C.records = <<>> /\ C.end = "ok"
          IN IF C.end # "ok" THEN Fails("exit")
             ELSE IF ~p.ok THEN IF C.exch = <<>> /\ C.records = <<>> /\ C.end = "ok" /\ ErrorEnd(1) # 0
                           THEN verdict' = "ok" /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>> ELSE Fails("text that does not parse")
             ELSE IF r.o = "any" THEN verdict' = "open" /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>>
             ELSE IF ~TopShown(r.s) THEN Fails("shown while a top-level request was waited for")
             ELSE IF a = 0 THEN Fails("output of the top-level statements")
             ELSE IF ~WiresMatch(es, r.s.recs) THEN Fails("requests of the top-level statements")
             ELSE IF r.o = "err" THEN IF quiet /\ ErrorEnd(a) # 0
                           THEN verdict' = "ok" /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>> ELSE Fails("top-level failure")
             ELSE IF C.mode = "named" /\ C.name \notin DOMAIN p.tests
             THEN IF quiet /\ SubSeq(C.out, a, Len(C.out)) = SNotFound \o C.name \o <<10>>
                  THEN verdict' = "ok" /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>> ELSE Fails("test not found")
             ELSE IF C.mode = "all" /\ (Len(C.tests) # Cardinality(DOMAIN p.tests) \/ {C.tests[i] : i \in 1..Len(C.tests)} # DOMAIN p.tests)
             THEN Fails("the tests run are not the tests of the program")
             ELSE IF C.rec /\ (Len(C.records) # NThreads \/ \E t \in 1..Len(C.records) : C.records[t].name # C.pod \o SixDigits(t - 1))
             THEN Fails("names of the record files")
             ELSE IF ~C.rec /\ C.records # <<>> THEN Fails("record files not asked for")
             ELSE IF Has(C, "strays") /\ (\E i \in 1..Len(C.strays) : ~NothingSent(C.strays[i])) THEN Fails("sent to a peer that nothing can name")
             ELSE IF \E i \in 1..Len(C.exch) : C.exch[i].t >= NThreads THEN Fails("exchange of no thread")
             ELSE /\ phase' = "thread" /\ outpos' = a
                  /\ data' = [data EXCEPT !.prog = p, !.top = [r.s EXCEPT !.out = <<>>, !.cuts = <<>>, !.recs = <<>>]]
                  /\ UNCHANGED <<case, thr, idx, durs, verdict>>

(* thread thr starts from the state after the top-level statements *)
Start == /\ phase = "thread" /\ thr < NThreads
         /\ LET f == IF C.rec THEN FileOf(C.records[thr + 1].bytes) ELSE [ok |-> TRUE, whole |-> TRUE, blocks |-> <<>>]
            IN IF ~f.ok \/ ~f.whole THEN Fails("record file is not valid")
               ELSE /\ data' = [data EXCEPT !.st = [data.top EXCEPT !.feed = Feed(ExchOf(thr))], !.its = <<>>, !.blocks = Append(@, f.blocks)]
                    /\ phase' = "iterate" /\ UNCHANGED <<case, thr, outpos, idx, durs, verdict>>
Failed(its) == its # <<>> /\ its[Len(its)].err
Iterate == /\ phase = "iterate" /\ Len(data.its) < Quota(thr) /\ ~Failed(data.its)
           /\ LET r == EvalBlock(data.prog.tests[TestOf(thr)], 1, Null, data.st)
              IN IF r.o = "any" THEN verdict' = "open" /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>>
                 ELSE /\ data' = [data EXCEPT !.its = Append(@, [out |-> r.s.out, cuts |-> r.s.cuts, err |-> r.o = "err", recs |-> r.s.recs]),
                                              !.st = [r.s EXCEPT !.out = <<>>, !.cuts = <<>>, !.recs = <<>>]]
                      /\ UNCHANGED <<case, phase, thr, outpos, idx, durs, verdict>>
(* the text printed by one call of print or println is written in one piece; what other threads write may come between two calls *)
RECURSIVE Pieces(_, _)
Pieces(t, p) == IF p > Len(t) THEN <<>> ELSE LET e == Min({Find(t, p, 10), Len(t)}) IN <<<<"text", SubSeq(t, p, e)>>>> \o Pieces(t, e + 1)
Printed(it) == FoldLeft(LAMBDA a, i : a \o Pieces(SubSeq(it.out, IF i = 1 THEN 1 ELSE it.cuts[i - 1] + 1, it.cuts[i]), 1), <<>>, [i \in 1..Len(it.cuts) |-> i])
ChunksOf(it, k) == Printed(it) \o (IF it.err THEN <<<<"error">>>> ELSE <<>>) \o [i \in 1..Len(it.recs) |-> <<"report", k, i>>]
AllRecs(its) == FoldLeft(LAMBDA a, it : a \o it.recs, <<>>, its)
Finish == /\ phase = "iterate" /\ (Len(data.its) = Quota(thr) \/ Failed(data.its))
          /\ LET bs == data.blocks[thr + 1]
             IN IF ~WiresMatch(ExchOf(thr), AllRecs(data.its)) THEN Fails("requests of a thread")
                ELSE IF C.rec /\ Len(bs) # Len(data.its) THEN Fails("one block per iteration")
                ELSE IF C.rec /\ \E k \in 1..Len(bs) : Len(bs[k]) # Len(data.its[k].recs) THEN Fails("records of an iteration")
                ELSE /\ data' = [data EXCEPT !.done = Append(@, data.its), !.its = <<>>, !.st = NoState,
                                 !.chunks = Append(@, FoldLeft(LAMBDA a, k : a \o ChunksOf(data.its[k], k), <<>>, [k \in 1..Len(data.its) |-> k]))]
                     /\ idx' = Append(idx, 1) /\ thr' = thr + 1 /\ phase' = "thread"
                     /\ UNCHANGED <<case, outpos, durs, verdict>>
Lims(t) == \* per snapshot, what thread t + 1 has to have shown, see Prompt
    LET its == data.done[t]
        all == FoldLeft(LAMBDA a, k : a \o [i \in 1..Len(its[k].recs) |-> <<k, i>>], <<>>, [k \in 1..Len(its) |-> k])
        at == SelectSeq(all, LAMBDA ki : its[ki[1]].recs[ki[2]].sent)
        upto(k) == FoldLeft(LAMBDA a, j : a + Len(ChunksOf(its[j], j)), 0, [j \in 1..(k - 1) |-> j])
        before(j) == LET k == at[j][1]
                         pos == its[k].recs[at[j][2]].pos
                     IN upto(k) + Len(Printed([its[k] EXCEPT !.cuts = SelectSeq(@, LAMBDA c : c <= pos)]))
    IN [n \in 1..Len(ThreadSnaps) |->
            LET w == ThreadSnaps[n]
                j == IF w.held[t] THEN w.sent[t] ELSE w.sent[t] + 1
            IN IF j > Len(at) THEN [chunks |-> Len(data.chunks[t]), its |-> Len(its), more |-> FALSE] ELSE [chunks |-> before(j), its |-> at[j][1] - 1, more |-> TRUE]]
Merge == /\ phase = "thread" /\ thr = NThreads
         /\ data' = [data EXCEPT !.lims = TLCEval([t \in 1..NThreads |-> Lims(t)])]
         /\ IF C.rec /\ (\E t \in 1..NThreads : \E n \in 1..Len(ThreadSnaps) :
                            LET f == FileOf(SubSeq(C.records[t].bytes, 1, ThreadSnaps[n].lens[t]))
                            IN ~(f.ok /\ f.whole /\ Len(f.blocks) = data'.lims[t][n].its))
            THEN verdict' = "bad:record files while a request was waited for" /\ phase' = "end"
            ELSE IF \E t \in 1..NThreads : \E n \in 1..Len(ThreadSnaps) : ~ThreadSnaps[n].held[t] /\ data'.lims[t][n].more
            THEN verdict' = "bad:a thread waits for another one's request" /\ phase' = "end"
            ELSE phase' = "merge" /\ UNCHANGED verdict
         /\ UNCHANGED <<case, thr, outpos, idx, durs>>

(* the next piece of thread t is next in the output *)
ExchAt(t, k, i) == \* the i-th exchange of iteration k, if it was one
    ExchOf(t - 1)[Len(SentBy(AllRecs(SubSeq(data.done[t], 1, k - 1)) \o SubSeq(data.done[t][k].recs, 1, i)))]
WireOf(t, k, i) == IF data.done[t][k].recs[i].sent THEN ExchAt(t, k, i).wire ELSE <<>>
(* where the peer or the network paused, it shows in the times; cases of which times are to be judged carry slack *)
PausesOk(d, t, k, i) == Has(C, "slack") /\ data.done[t][k].recs[i].sent /\ ~data.done[t][k].recs[i].resp.error => PausesShow(d, ExchAt(t, k, i).pause, C.slack)
Reserved(p) == StartsAt(C.out, p, STest) \/ StartsAt(C.out, p, SPass) \/ StartsAt(C.out, p, SFailed)
Emit(t) ==
    /\ phase = "merge" /\ t \in 1..Len(idx) /\ idx[t] <= Len(data.chunks[t])
    /\ LET c == data.chunks[t][idx[t]]
           a == IF c[1] = "text" THEN After(C.out, outpos, c[2])
                ELSE IF c[1] = "error" THEN LET e == Find(C.out, outpos, 10) IN
                     IF e > Len(C.out) \/ e = outpos \/ Reserved(outpos) THEN 0
                     ELSE IF LooksLikeValue(SubSeq(C.out, outpos, e - 1)) THEN 0 ELSE e + 1
                ELSE 0
           e == IF c[1] = "report" THEN data.done[t][c[2]].recs[c[3]] ELSE <<>>
           r == IF c[1] = "report" THEN ReportAt(e, C.out, outpos) ELSE <<>>
       IN IF c[1] # "report" THEN a # 0 /\ outpos' = a /\ UNCHANGED durs
          ELSE /\ r # <<>>
               /\ C.rec => LET d == data.blocks[t][c[2]][c[3]] IN
                           RecordIs(d, TestOf(t - 1), t - 1, c[2] - 1, c[3] - 1, e, WireOf(t, c[2], c[3])) /\ Time(d, "time_total")[3] = r[1] /\ PausesOk(d, t, c[2], c[3])
               /\ outpos' = r[2] /\ durs' = Append(durs, <<e.name, r[1]>>)
    /\ Prompted(ThreadSnaps, data.lims[t], idx[t], data.chunks[t][idx[t]], outpos, outpos')
    /\ idx' = [idx EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<case, phase, thr, data, verdict>>

(* statistics of the durations reported *)
Millis(d) == BDiv(d, BNat(1000000))[1]
SCount == S(" count=") SSum == S("  sum=") SAvg == S("  avg=") SMax == S("  max=") SMin == S("  min=")
StatLine(n) ==
    LET ds == SelectSeq(durs, LAMBDA d : d[1] = n)
        ms == [i \in 1..Len(ds) |-> Millis(ds[i][2])]
        sum == FoldLeft(LAMBDA a, m : BAdd(a, m), <<>>, ms)
        max == FoldLeft(LAMBDA a, m : IF BCmp(m, a) > 0 THEN m ELSE a, <<>>, ms)
        min == FoldLeft(LAMBDA a, m : IF BCmp(m, a) < 0 THEN m ELSE a, ms[1], ms)
    IN n \o SCount \o NatText(Len(ms)) \o SSum \o BDigits(sum) \o SAvg \o BDigits(BDiv(sum, BNat(Len(ms)))[1]) \o SMax \o BDigits(max) \o SMin \o BDigits(min)
StatsOk(t) == LET names == {durs[i][1] : i \in 1..Len(durs)}
                  ls == Lines(t)
              IN IF ~C.stat THEN t = <<>>
                 ELSE Len(ls) = Cardinality(names) /\ {ls[i] : i \in 1..Len(ls)} = {StatLine(n) : n \in names} /\ (t # <<>> => t[Len(t)] = 10)
End == /\ phase = "merge" /\ \A t \in 1..Len(idx) : idx[t] > Len(data.chunks[t])
       /\ verdict' = IF \E n \in 1..Len(ThreadSnaps) : ThreadSnaps[n].shown >= outpos THEN "bad:shown before the end" ELSE IF ~StatsOk(SubSeq(C.out, outpos, Len(C.out))) THEN "bad:statistics or more output" ELSE IF C.end # "ok" THEN "bad:exit" ELSE "ok"
       /\ phase' = "end" /\ UNCHANGED <<case, thr, data, outpos, idx, durs>>
Next == Top \/ Start \/ Iterate \/ Finish \/ Merge \/ (\E t \in DOMAIN idx : Emit(t)) \/ End
View == <<case, phase, thr, Len(data.its), outpos, idx, verdict>>
(* every case must reach "ok" on some path (a case without it is reported by the driver); the rest is for diagnosis *)
Report == verdict # "run" => PrintT(<<"CASE", verdict, case, outpos>>)
Trail == ("DIAG" \in DOMAIN IOEnv /\ phase = "merge") => PrintT(<<"TRAIL", outpos, idx>>)
===========================================================================

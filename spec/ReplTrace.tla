----------------------------- MODULE ReplTrace -----------------------------
(* Validates recorded sessions: every case holds the lines sent, the whole  *)
(* standard output, and how the process ended.  Each case is an initial     *)
(* state; the actions of Repl are taken in order while the output is        *)
(* consumed.  A case conforms if the output is consumed exactly.            *)
(*   case: [lines: seq of texts, out: text, end: "ok" | other,              *)
(*          mode "text": the one text was a program (eval);              *)
(*          mode "file": the one text was a source file, only what it  *)
(*          prints and whether it fails is shown;                         *)
(*          mode "text", exchanges: shown, how much of the output was     *)
(*          there while the answer was held back;                         *)
(*          shown: how much of the output was there when nothing came     *)
(*          any more after each line, before the next was given;          *)
(*          and if servers are involved: srv, exch, files: see Exchange]    *)
EXTENDS Repl, Exchange, Prompt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES case, nline, outpos, matched, verdict
vars == <<rvars, case, nline, outpos, matched, verdict>>

TInit == /\ case \in 1..Len(Cases)
         /\ RInit(Cases[case].lines, FeedOf(Cases[case]), ServersOf(Cases[case]))
         /\ nline = 0 /\ outpos = 1 /\ matched = 0 /\ verdict = "run"

Out == Cases[case].out
IsFile0 == Has(Cases[case], "mode") /\ Cases[case].mode = "file"
(* in mode "file" the note that the named test does not exist *)
SNoTest == S("Test not found: ")
NoTest == IF IsFile0 THEN SNoTest \o Cases[case].name \o <<LF>> ELSE <<>>
(* the end of the answer that starts at outpos, 0 if it is none *)
AnswerEnd(a) ==
    CASE a[1] = "value" /\ IsFile0 -> After(Out, outpos, a[2])
      [] a[1] = "value" -> LET b == After(Out, outpos, a[2]) IN After(Out, ShownAt(a[3], Out, b), <<LF>>)
      [] a[1] = "error" -> LET b == After(Out, outpos, a[2])
                               e == Find(Out, b, LF)
                           IN IF b = 0 THEN 0
                              ELSE IF Has(Cases[case], "mode")      \* a token of the text quoted in the message may span lines
                              THEN IF b < Len(Out) /\ Out[Len(Out)] = LF /\ SubSeq(Out, b, Len(Out)) # NoTest /\ ~LooksLikeValue(SubSeq(Out, b, Len(Out) - 1)) THEN Len(Out) + 1 ELSE 0
                              ELSE IF e > Len(Out) \/ e = b THEN 0
                              ELSE IF LooksLikeValue(SubSeq(Out, b, e - 1)) THEN 0 ELSE e + 1
      [] OTHER -> 0

(* read a line *)
Read == /\ verdict = "run" /\ matched = Len(answers)
        /\ IF Has(Cases[case], "mode") THEN ReadText \/ ReadEof ELSE RNext
        /\ nline' = nline + 1 /\ UNCHANGED <<case, outpos, matched, verdict>>
(* what had been printed before a request was there while its answer was waited for *)
HeldOk(printed) == LET made == SelectSeq(st.recs, LAMBDA r : r.sent)
                       x == Cases[case] IN
    Has(x, "mode") /\ Has(x, "exch") => \A i \in 1..Len(x.exch) : Has(x.exch[i], "shown") /\ i <= Len(made) =>
        x.exch[i].shown \in LineEnd(printed, made[i].pos)..made[i].pos
(* find its answer in the output *)
Match == /\ verdict = "run" /\ matched < Len(answers)
         /\ matched' = matched + 1
         /\ LET a == answers[Len(answers)]
                e == AnswerEnd(a)
            IN IF a[1] = "open" THEN UNCHANGED outpos /\ verdict' = IF Cases[case].end = "ok" THEN "open" ELSE "bad"
               ELSE IF e = 0 THEN UNCHANGED outpos /\ verdict' = "bad"
               ELSE IF ~HeldOk(a[2]) THEN UNCHANGED outpos /\ verdict' = "bad"
               ELSE IF Has(Cases[case], "shown") /\ Cases[case].shown[nline] # e - 1 THEN UNCHANGED outpos /\ verdict' = "bad"
               ELSE outpos' = e /\ UNCHANGED verdict
         /\ UNCHANGED <<rvars, case, nline>>
(* what follows the answer *)
Tail0 == IF IsFile0 THEN (IF answers # <<>> /\ answers[1][1] = "value" THEN NoTest ELSE <<>>) ELSE <<>>
Stop == /\ verdict = "run" /\ phase # "run" /\ matched = Len(answers)
        /\ verdict' = IF SubSeq(Out, outpos, Len(Out)) = Tail0 /\ Cases[case].end = "ok" /\ WiresOk(Cases[case], st.recs) THEN "ok" ELSE "bad"
        /\ UNCHANGED <<rvars, case, nline, outpos, matched>>
(* a recording that can neither be read on nor is finished is a deadlock, an error of this module *)
Done == verdict # "run" /\ UNCHANGED vars
TNext == Read \/ Match \/ Stop \/ Done
View == <<case, nline, matched, verdict, phase>>
Conforms == verdict # "bad"
Report == verdict \in {"bad", "open"} => PrintT(<<"CASE", verdict, case, nline>>)
===========================================================================

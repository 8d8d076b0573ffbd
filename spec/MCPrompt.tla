----------------------------- MODULE MCPrompt -----------------------------
(* Threads that write whole lines and beginnings of lines, send requests    *)
(* whose answers may never come, and end.                                   *)
EXTENDS Prompt
CONSTANTS Threads, MaxSteps
VARIABLES kept, shown, written, waits, steps, ended
vars == <<kept, shown, written, waits, steps, ended>>

(* pieces are marked with their thread; "a" begins a line, "b" ends one *)
Piece(t, kind) == IF kind = "begin" THEN <<64 + t>> ELSE IF kind = "line" THEN <<96 + t, LF>> ELSE <<64 + t, LF, 96 + t>>
Init == /\ kept = <<>> /\ shown = <<>> /\ written = [t \in Threads |-> <<>>] /\ waits = [t \in Threads |-> FALSE]
        /\ steps = [t \in Threads |-> 0] /\ ended = FALSE
Write(t) == /\ ~waits[t] /\ steps[t] < MaxSteps /\ steps' = [steps EXCEPT ![t] = @ + 1]
            /\ \E k \in {"begin", "line", "both"} :
                LET w == Written(kept, Piece(t, k)) IN
                /\ shown' = shown \o w[1] /\ kept' = w[2] /\ written' = [written EXCEPT ![t] = @ \o Piece(t, k)]
            /\ UNCHANGED <<waits, ended>>
Ask(t) == ~waits[t] /\ steps[t] < MaxSteps /\ waits' = [waits EXCEPT ![t] = TRUE] /\ steps' = [steps EXCEPT ![t] = @ + 1] /\ UNCHANGED <<kept, shown, written, ended>>
Answered(t) == waits[t] /\ waits' = [waits EXCEPT ![t] = FALSE] /\ UNCHANGED <<kept, shown, written, steps, ended>>
End == /\ ~ended /\ \A t \in Threads : steps[t] = MaxSteps /\ ~waits[t]
       /\ ended' = TRUE /\ shown' = shown \o kept /\ kept' = <<>> /\ UNCHANGED <<written, waits, steps>>
Next == (\E t \in Threads : Write(t) \/ Ask(t) \/ Answered(t)) \/ End
Spec == Init /\ [][Next]_vars

Of(t, u) == SelectSeq(u, LAMBDA c : c \in {64 + t, 96 + t})
(* nothing is lost, doubled or reordered; only the beginning of one line can be kept back *)
Faithful == \A t \in Threads : Of(t, shown \o kept) = Of(t, written[t])
OneLine == \A i \in 1..Len(kept) : kept[i] # LF
(* so a line that a waiting thread has ended is shown, whatever the others do *)
Prompt0 == \A t \in Threads : Len(Of(t, SubSeq(written[t], 1, LineEnd(written[t], Len(written[t]))))) <= Len(Of(t, shown))
AllAtEnd == ended => kept = <<>>
===========================================================================

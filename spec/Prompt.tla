------------------------------ MODULE Prompt ------------------------------
(* When output can be seen.  Threads write pieces of text to one standard   *)
(* output, which passes on whole lines at once and keeps the beginning of a *)
(* line until its end is written by whomever, or until the process ends.    *)
(* A thread that waits for an answer has written all it had to write before.*)
EXTENDS Text

(* the last position <= p of t after which a line ends, 0 if there is none *)
LineEnd(t, p) == LET n == IF p < Len(t) THEN p ELSE Len(t)
                     k == First(1, n, LAMBDA i : t[n + 1 - i] = LF)
                 IN n + 1 - k
(* what the output passes on when u is written and rest was kept: <<passed on, kept>> *)
Written(rest, u) == LET t == rest \o u
                        e == LineEnd(t, Len(t))
                    IN <<SubSeq(t, 1, e), SubSeq(t, e + 1, Len(t))>>

(* For recordings: snaps are the moments when nothing moved, each with the  *)
(* number of characters shown.  lims[n].chunks pieces of a thread were      *)
(* written before moment n.  Its piece number i, at positions a..b-1 of the *)
(* output, has to be shown if it ends a line, and may not be if it is later.*)
EndsLine(c) == IF c[1] = "text" THEN c[2] # <<>> /\ c[2][Len(c[2])] = LF ELSE TRUE
Prompted(snaps, lims, i, c, a, b) ==
    \A n \in 1..Len(snaps) : /\ i <= lims[n].chunks /\ EndsLine(c) => b - 1 <= snaps[n].shown
                             /\ i > lims[n].chunks => a > snaps[n].shown
===========================================================================

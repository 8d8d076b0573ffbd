------------------------------- MODULE Phases -------------------------------
(* The clocks of an exchange.  It passes through the phases resolve,        *)
(* connect, write (sending), delay (until the first byte of the answer) and *)
(* read; marks are taken when it enters them, and the times recorded are    *)
(* computed from the marks.                                                 *)
EXTENDS Integers, Sequences
PhaseNames == <<"resolve", "connect", "write", "delay", "read">>
VARIABLES now, at, marks, tally, started, ended
pvars == <<now, at, marks, tally, started, ended>>
PInit == now = 0 /\ at = 1 /\ marks = <<0>> /\ tally = [i \in 1..5 |-> 0] /\ started = 0 /\ ended = -1
(* d time units go by in the present phase *)
Pass(d) == at <= 5 /\ now' = now + d /\ tally' = [tally EXCEPT ![at] = @ + d] /\ UNCHANGED <<at, marks, started, ended>>
Enter == /\ at <= 5 /\ at' = at + 1 /\ marks' = Append(marks, now)
         /\ ended' = (IF at = 5 THEN now ELSE ended) /\ UNCHANGED <<now, tally, started>>
Done == at = 6
(* as the client computes them: sending is what is left *)
Total == marks[6] - marks[1]
Resolve == marks[2] - marks[1]
Connect == (marks[3] - marks[1]) - Resolve
Delay == marks[5] - marks[4]
Read == (marks[6] - marks[4]) - Delay
Write == Total - Resolve - Connect - Read - Delay
Times == <<Resolve, Connect, Write, Delay, Read>>
Partition == Done => Total = Times[1] + Times[2] + Times[3] + Times[4] + Times[5]
Within == Done => started + Total <= ended
Attributed == Done => Times = tally
===========================================================================

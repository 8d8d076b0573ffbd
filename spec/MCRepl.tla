------------------------------- MODULE MCRepl -------------------------------
(* Every session of up to MaxLines of the lines below: the properties of    *)
(* C05 as properties of the session's transitions.                          *)
EXTENDS Repl, TLC
CONSTANT MaxLines
VARIABLES lastline
mvars == <<rvars, lastline>>
Pool == {S(t) : t \in {"let a = 1", "let a = [a, 2]", "[a]", "let b = a; nosuch; let a = 5", "let a = ", "(let b = 7) + nosuch", "request q `x`", "q().status", "request q `y` [",
                       "", "  ", "exit", "exit ", "if (a) { let b = 3 } else { let a = 4 }", "[let b = 8, 1 / 0]"}}
Init == input \in UNION {[1..n -> Pool] : n \in 0..MaxLines} /\ st = NoState /\ answers = <<>> /\ phase = "run" /\ lastline = <<>>
Next == \/ phase = "run" /\ RNext /\ lastline' = (IF input = <<>> THEN <<>> ELSE Head(input))
        \/ phase # "run" /\ UNCHANGED mvars
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Answered == Len(answers') - Len(answers)
(* one answer per non-blank line, none for others *)
OneAnswer == [][phase = "run" => Answered = (IF input # <<>> /\ Head(input) # SExit /\ ~Blank(Head(input)) THEN 1 ELSE 0)]_mvars
(* nothing bound earlier is ever lost; a line that does not parse changes nothing; what a line binds depends on the state before it only *)
Keeps == [][DOMAIN st.env \subseteq DOMAIN st'.env /\ DOMAIN st.reqs \subseteq DOMAIN st'.reqs]_mvars
NoParseNoChange == [][(phase = "run" /\ input # <<>> /\ ~Parse(Head(input)).ok) => st' = st]_mvars
(* reading changes nothing *)
ReadOnly == [][(phase = "run" /\ input # <<>> /\ Head(input) = S("[a]")) => st'.env = st.env]_mvars
Latest == [][(phase = "run" /\ input # <<>> /\ Head(input) = S("let a = 1")) => st'.env[S("a")] = IntOf(1)]_mvars
EndsOnce == [][phase # "run" => UNCHANGED rvars]_mvars
EndsAt == phase = "exit" => input # <<>> /\ Head(input) = SExit
EofAt == phase = "eof" => input = <<>>
Ends == <>(phase # "run")
=============================================================================

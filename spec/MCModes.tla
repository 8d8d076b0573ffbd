------------------------------ MODULE MCModes ------------------------------
(* One program, given in different ways: as one text, line by line, with its definitions elsewhere, as the body of   *)
(* a test or of an if, in several files that are read one after another.  All programs of up to MaxLen statements of *)
(* the pool, with the definitions in front of them, between them or behind them.                                     *)
EXTENDS Lang
CONSTANT MaxLen
VARIABLES stmts, sep, defpos, seen

Pool == {S(t) : t \in {"let a = 1", "let a = [a, 2]", "println(\"{x}\", a)", "q()", "let r = q().status", "d()", "1 / 0", "let b = a; nosuch; let a = 5", "let = 1", "if (a) { let c = 3 } else { let a = 4 }",
                       "\"x;y\"", "{}", "print(\"{x};\", [a, r])"}}
Defs == <<S("request q `GET http://h/{a}`[status == 200, (let a = 7) == 7]"), S("request d `GET http://dead/`"), S("test u { let a = 9; nosuch }")>>
Seps == {<<59>>, <<32, 59, 10, 32>>}
Host == S("h")
Heard(n) == [NoResponse EXCEPT !.error = FALSE, !.status = n, !.version = S("HTTP/1.1"), !.reason = S("OK")]
S0 == [NoState EXCEPT !.feed = <<Heard(200), Heard(404)>>, !.srv = {<<Host, 80>>}]

Init == /\ \E n \in 0..MaxLen : stmts \in [1..n -> Pool]
        /\ sep \in Seps /\ defpos \in 0..MaxLen /\ defpos <= Len(stmts)
        /\ (sep # <<59>> => defpos = 0)
        /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<stmts, sep, defpos>>

AllDefs == JoinText(Defs, <<10>>)
Join(ts) == JoinText(ts, sep)
(* the definitions after the first defpos statements *)
Whole == JoinText(SubSeq(stmts, 1, defpos) \o <<AllDefs>> \o SubSeq(stmts, defpos + 1, Len(stmts)), sep)
InFront == AllDefs \o sep \o Join(stmts)
(* line by line, up to the first that fails *)
RECURSIVE LineByLine(_, _, _)
LineByLine(ts, v, s) == IF ts = <<>> THEN R(v, s)
                   ELSE LET r == Run(Head(ts), s) IN IF r.o = "ok" THEN LineByLine(Tail(ts), r.v, r.s) ELSE r
Parses == \A i \in 1..Len(stmts) : Parse(stmts[i]).ok
Known == Run(AllDefs, S0).s
Body(p) == EvalBlock(p.tests[S("t")], 1, Null, [S0 EXCEPT !.reqs = p.requests])

(* nothing runs of a text that does not parse *)
AllOrNothing == ~Parses => LET r == Run(Whole, S0) IN r.o = "err" /\ r.s = S0
(* the place of the definitions does not matter *)
Anywhere == Run(Whole, S0) = Run(InFront, S0)
(* line by line: the same value, bindings, prints, requests; or the same failure at the same point *)
ByLines == Parses => Run(InFront, S0) = (IF stmts = <<>> THEN R(Null, Known) ELSE LineByLine(stmts, Null, Known))
(* as the body of a test, or of an if: definitions stay outside *)
AsBody == LET p == Parse(AllDefs \o S(" test t {") \o Join(stmts) \o S("}")) IN
          IF Parses THEN p.ok /\ p.exprs = <<>> /\ Body(p) = Run(InFront, S0) ELSE ~p.ok
AsIf == Parses => Run(AllDefs \o S(" if (true) {") \o Join(stmts) \o S("}"), S0) = Run(InFront, S0)
(* files are read one after another, each ended by a line end *)
InFiles == \A k \in 0..Len(stmts) : LET a == Join(SubSeq(stmts, 1, k)) b == Join(SubSeq(stmts, k + 1, Len(stmts)))
                                    IN /\ Parses => Run(a \o (IF k = 0 THEN <<>> ELSE <<59, 10>>) \o AllDefs \o <<10>> \o b \o <<10>>, S0) = Run(InFront, S0)
(* what is around a text does not matter either *)
Around1 == stmts # <<>> => Run(<<32, 10>> \o InFront \o <<59, 9>>, S0) = Run(InFront, S0)
(* a test is never part of what is evaluated *)
NoTest == LET p == Parse(InFront) IN p.ok => DOMAIN p.tests = {S("u")}
Same == seen => AllOrNothing /\ Anywhere /\ ByLines /\ AsBody /\ AsIf /\ InFiles /\ Around1 /\ NoTest
=============================================================================

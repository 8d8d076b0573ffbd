------------------------------ MODULE GenOps ------------------------------
(* For every ordered pair of binary operators: operands a, b, c such that   *)
(* (a o1 b) o2 c and a o1 (b o2 c) have different outcomes, so that the text *)
(* "a o1 b o2 c" shows how the two were grouped; likewise for a prefix.      *)
EXTENDS Lang

VARIABLES opLeft, opRight, witness
Pool == <<IntOf(5), IntOf(3), IntOf(2), IntOf(1), IntOf(0), Bool(TRUE), Bool(FALSE), FOfText(FALSE, S("0.1")),
          FOfText(FALSE, S("0.7")), Str(S("a")), Null, IntOf(63), I(FALSE, Max63), IntOf(12), I(FALSE, <<0, 0, 0, 0, 0, 0, 0, 64>>)>>
Texts == <<"5", "3", "2", "1", "0", "true", "false", "0.1", "0.7", "\"a\"", "[][0]", "63", "9223372036854775807", "12", "4611686018427387904">>
N == Len(Pool)
Do(op, x, y) == IF x[1] # "ok" THEN x
                ELSE IF op \in {"||", "&&"} THEN (IF Truthy(x[2]) = (op = "||") THEN x ELSE y)
                ELSE IF y[1] # "ok" THEN y ELSE Binary(op, x[2], y[2])
Same(r, q) == IF r[1] = "ok" /\ q[1] = "ok" THEN r[2][1] = q[2][1] /\ EqV(r[2], q[2]) ELSE r[1] = q[1]
L(op1, op2, a, b, c) == Do(op2, Do(op1, a, b), c)
Rt(op1, op2, a, b, c) == Do(op1, a, Do(op2, b, c))
Tells(op1, op2, i, j, k) == LET a == Ok(Pool[i]) b == Ok(Pool[j]) c == Ok(Pool[k])
                            IN ~Same(L(op1, op2, a, b, c), Rt(op1, op2, a, b, c))
(* preferably both groupings have a value *)
Clear(op1, op2, i, j, k) == LET a == Ok(Pool[i]) b == Ok(Pool[j]) c == Ok(Pool[k])
                                x == L(op1, op2, a, b, c) y == Rt(op1, op2, a, b, c)
                            IN x[1] = "ok" /\ y[1] = "ok" /\ ~Same(x, y)
Witness(op1, op2) ==
    LET all == {x \in (1..N) \X (1..N) \X (1..N) : TRUE}
    IN IF \E x \in all : Clear(op1, op2, x[1], x[2], x[3])
       THEN CHOOSE x \in all : Clear(op1, op2, x[1], x[2], x[3])
       ELSE IF \E x \in all : Tells(op1, op2, x[1], x[2], x[3])
       THEN CHOOSE x \in all : Tells(op1, op2, x[1], x[2], x[3])
       ELSE <<0, 0, 0>>
(* -a o b, !a o b: prefix first or last *)
WitnessUn(u, op) ==
    LET f(i, j) == Do(op, Unary(u, Pool[i]), Ok(Pool[j]))
        g(i, j) == LET r == Do(op, Ok(Pool[i]), Ok(Pool[j])) IN IF r[1] = "ok" THEN Unary(u, r[2]) ELSE r
        all == (1..N) \X (1..N)
    IN IF \E x \in all : ~Same(f(x[1], x[2]), g(x[1], x[2]))
       THEN CHOOSE x \in all : ~Same(f(x[1], x[2]), g(x[1], x[2])) ELSE <<0, 0>>
Init == opLeft \in ({BinOps[i] : i \in 1..Len(BinOps)} \cup {"un-", "un!"}) /\ opRight \in {BinOps[i] : i \in 1..Len(BinOps)} /\ witness = <<"?">>
W == IF opLeft \in {"un-", "un!"}
     THEN LET w == WitnessUn(IF opLeft = "un-" THEN "-" ELSE "!", opRight)
          IN IF w[1] = 0 THEN <<>> ELSE <<Texts[w[1]], Texts[w[2]]>>
     ELSE LET w == Witness(opLeft, opRight)
          IN IF w[1] = 0 THEN <<>> ELSE <<Texts[w[1]], Texts[w[2]], Texts[w[3]]>>
Next == witness = <<"?">> /\ witness' = W /\ UNCHANGED <<opLeft, opRight>>
Emit == witness # <<"?">> => PrintT(<<"WITNESS", opLeft, opRight, witness>>)
===========================================================================

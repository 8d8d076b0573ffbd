------------------------------- MODULE Lang -------------------------------
(* The script language: texts -> tokens -> programs -> values and effects.  *)
EXTENDS JsonText, Http

---------------------------------------------------------------------------
(* 1. Tokens.  A token is <<kind, text>>; the kind of an operator or        *)
(* delimiter is its own spelling.                                           *)
One1 == <<"+", "-", "*", "/", "%", "^", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]">>
OneOf == TLCEval([c \in {CodeOf[One1[i]] : i \in 1..Len(One1)} |-> CHOOSE k \in {One1[i] : i \in 1..Len(One1)} : CodeOf[k] = c])
Keyword == TLCEval([t \in {S("true"), S("false"), S("let"), S("if"), S("else"), S("request"), S("test")} |->
    CHOOSE k \in {"true", "false", "let", "if", "else", "request", "test"} : S(k) = t])

(* the token starting at the non-space position p, as <<token, next position>> *)
LexOne(t, p) ==
    LET c == t[p]
        n == IF p < Len(t) THEN t[p + 1] ELSE 0
        two(second, k2, k1) == IF n = second THEN <<<<k2, <<>>>>, p + 2>> ELSE <<<<k1, <<>>>>, p + 1>>
    IN CASE c \in DOMAIN OneOf -> <<<<OneOf[c], <<>>>>, p + 1>>
         [] c = 61 -> two(61, "==", "=")
         [] c = 33 -> two(61, "!=", "!")
         [] c = 124 -> two(124, "||", "|")
         [] c = 38 -> two(38, "&&", "&")
         [] c = 60 -> IF n = 61 THEN <<<<"<=", <<>>>>, p + 2>> ELSE two(60, "<<", "<")
         [] c = 62 -> IF n = 61 THEN <<<<">=", <<>>>>, p + 2>> ELSE two(62, ">>", ">")
         [] c = 34 -> LET e == Find(t, p + 1, 34) IN <<<<"str", SubSeq(t, p + 1, e - 1)>>, e + 1>>
         [] c = 96 -> LET e == Find(t, p + 1, 96) IN <<<<"tpl", SubSeq(t, p + 1, e - 1)>>, e + 1>>
         [] IsDigit(c) -> LET e == RunEnd(t, p, IsNumChar)
                              w == SubSeq(t, p, e - 1)
                          IN <<<<IF \E i \in 1..Len(w) : w[i] = 46 THEN "flt" ELSE "int", w>>, e>>
         [] IsIdentStart(c) -> LET e == RunEnd(t, p, IsIdentPart)
                                   w == SubSeq(t, p, e - 1)
                               IN <<<<IF w \in DOMAIN Keyword THEN Keyword[w] ELSE "id", w>>, e>>
         [] OTHER -> <<<<"bad", <<c>>>>, p + 1>>
RECURSIVE LexFrom(_, _, _)
LexFrom(t, p, acc) ==
    IF p > Len(t) THEN Append(acc, <<"eof", <<>>>>)
    ELSE IF IsSpace(t[p]) THEN LexFrom(t, RunEnd(t, p, IsSpace), acc)
    ELSE LET x == LexOne(t, p) IN LexFrom(t, x[2], Append(acc, x[1]))
Lex(t) == LexFrom(t, 1, <<>>)

---------------------------------------------------------------------------
(* 2. Grammar.  Stratified by precedence; every level groups to the left.   *)
(*                                                                          *)
(*   program  ::= { (request | test | expr) [";"] }                         *)
(*   request  ::= "request" id template [ "[" exprs "]" ]                   *)
(*   test     ::= "test" id block                                           *)
(*   block    ::= "{" { expr [";"] } "}"                                    *)
(*   expr     ::= level 1                                                   *)
(*   level k  ::= level k+1 { op_k level k+1 }          k = 1..10           *)
(*   level 11 ::= ("!" | "-") level 11 | level 12                           *)
(*   level 12 ::= primary { "(" exprs ")" | "[" expr "]" | "." id }         *)
(*                where "(" may only follow an identifier                   *)
(*   primary  ::= id | int | flt | "true" | "false" | str | "(" expr ")"    *)
(*              | "[" exprs "]" | "{" pairs "}" | "if" "(" expr ")" block   *)
(*                ["else" block]                                            *)
(*   a level may instead be  "let" id "=" expr  (extends as far as possible)*)
(*   exprs    ::= { expr "," } [expr]      pairs likewise of expr ":" expr  *)
Level(op) == CASE op = "||" -> 1 [] op = "&&" -> 2 [] op = "|" -> 3 [] op = "^" -> 4 [] op = "&" -> 5
               [] op \in {"==", "!="} -> 6 [] op \in {"<", ">", "<=", ">="} -> 7
               [] op \in {"<<", ">>"} -> 8 [] op \in {"+", "-"} -> 9 [] op \in {"*", "/", "%"} -> 10
               [] OTHER -> 0
BinOps == <<"||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%">>

(* nodes:  <<"lit", value>> <<"id", t>> <<"arr", seq>> <<"map", seq of <<k, v>>>> <<"idx", e, i>>        *)
(*         <<"fld", e, t>> <<"let", t, e>> <<"un", op, e>> <<"bin", op, l, r>> <<"par", e>>              *)
(*         <<"if", c, then, else>> <<"call", t, args>>                                                   *)
(* parse results: <<TRUE, node, next>> or Fail                                                           *)
Fail == <<FALSE>>
RECURSIVE PExpr(_, _, _), PClimb(_, _, _, _), PUnary(_, _), PPostfix(_, _, _), PPrimary(_, _), PList(_, _, _, _), PPairs(_, _, _), PBlock(_, _, _)
K(ts, p) == ts[p][1]
PExpr(ts, p, k) ==
    IF K(ts, p) = "let"
    THEN IF K(ts, p + 1) = "id" /\ K(ts, p + 2) = "="
         THEN LET v == PExpr(ts, p + 3, 1) IN IF v[1] THEN <<TRUE, <<"let", ts[p + 1][2], v[2]>>, v[3]>> ELSE Fail
         ELSE Fail
    ELSE IF k = 11 THEN PUnary(ts, p)
    ELSE LET l == PExpr(ts, p, k + 1) IN IF l[1] THEN PClimb(ts, l[2], l[3], k) ELSE Fail
PClimb(ts, left, p, k) ==
    IF Level(K(ts, p)) = k
    THEN LET r == PExpr(ts, p + 1, k + 1) IN IF r[1] THEN PClimb(ts, <<"bin", K(ts, p), left, r[2]>>, r[3], k) ELSE Fail
    ELSE <<TRUE, left, p>>
PUnary(ts, p) ==
    IF K(ts, p) \in {"!", "-"}
    THEN LET r == PExpr(ts, p + 1, 11) IN IF r[1] THEN <<TRUE, <<"un", K(ts, p), r[2]>>, r[3]>> ELSE Fail
    ELSE LET b == PPrimary(ts, p) IN IF b[1] THEN PPostfix(ts, b[2], b[3]) ELSE Fail
PPostfix(ts, node, p) ==
    CASE K(ts, p) = "(" ->
            LET a == PList(ts, p + 1, ")", <<>>)
            IN IF a[1] /\ node[1] = "id" THEN PPostfix(ts, <<"call", node[2], a[2]>>, a[3]) ELSE Fail
      [] K(ts, p) = "[" ->
            LET i == PExpr(ts, p + 1, 1)
            IN IF i[1] THEN (IF K(ts, i[3]) = "]" THEN PPostfix(ts, <<"idx", node, i[2]>>, i[3] + 1) ELSE Fail) ELSE Fail
      [] K(ts, p) = "." ->
            IF K(ts, p + 1) = "id" THEN PPostfix(ts, <<"fld", node, ts[p + 1][2]>>, p + 2) ELSE Fail
      [] OTHER -> <<TRUE, node, p>>
PPrimary(ts, p) ==
    LET k == K(ts, p) IN
    CASE k = "id" -> <<TRUE, <<"id", ts[p][2]>>, p + 1>>
      [] k = "int" -> LET v == I(FALSE, BOfDigits(ts[p][2])) IN IF FitsI64(v) THEN <<TRUE, <<"lit", v>>, p + 1>> ELSE Fail
      [] k = "flt" -> IF DotCount(ts[p][2]) = 1 THEN <<TRUE, <<"lit", FOfText(FALSE, ts[p][2])>>, p + 1>> ELSE Fail
      [] k \in {"true", "false"} -> <<TRUE, <<"lit", <<"bool", k = "true">>>>, p + 1>>
      [] k = "str" -> <<TRUE, <<"lit", <<"str", ts[p][2]>>>>, p + 1>>
      [] k = "(" -> LET e == PExpr(ts, p + 1, 1)
                    IN IF e[1] THEN (IF K(ts, e[3]) = ")" THEN <<TRUE, <<"par", e[2]>>, e[3] + 1>> ELSE Fail) ELSE Fail
      [] k = "[" -> LET a == PList(ts, p + 1, "]", <<>>) IN IF a[1] THEN <<TRUE, <<"arr", a[2]>>, a[3]>> ELSE Fail
      [] k = "{" -> LET a == PPairs(ts, p + 1, <<>>) IN IF a[1] THEN <<TRUE, <<"map", a[2]>>, a[3]>> ELSE Fail
      [] k = "if" ->
            IF K(ts, p + 1) # "(" THEN Fail
            ELSE LET c == PExpr(ts, p + 2, 1) IN
                 IF ~c[1] THEN Fail ELSE IF K(ts, c[3]) # ")" THEN Fail
                 ELSE LET a == PBlock(ts, c[3] + 1, TRUE) IN
                      IF ~a[1] THEN Fail
                      ELSE IF K(ts, a[3]) # "else" THEN <<TRUE, <<"if", c[2], a[2], <<>>>>, a[3]>>
                      ELSE LET b == PBlock(ts, a[3] + 1, TRUE)
                           IN IF b[1] THEN <<TRUE, <<"if", c[2], a[2], b[2]>>, b[3]>> ELSE Fail
      [] OTHER -> Fail
PList(ts, p, end, acc) ==
    IF K(ts, p) = end THEN <<TRUE, acc, p + 1>>
    ELSE LET e == PExpr(ts, p, 1) IN
         IF ~e[1] THEN Fail
         ELSE IF K(ts, e[3]) = end THEN <<TRUE, Append(acc, e[2]), e[3] + 1>>
         ELSE IF K(ts, e[3]) = "," THEN PList(ts, e[3] + 1, end, Append(acc, e[2]))
         ELSE Fail
PPairs(ts, p, acc) ==
    IF K(ts, p) = "}" THEN <<TRUE, acc, p + 1>>
    ELSE LET k == PExpr(ts, p, 1) IN
         IF ~k[1] THEN Fail ELSE IF K(ts, k[3]) # ":" THEN Fail
         ELSE LET v == PExpr(ts, k[3] + 1, 1) IN
              IF ~v[1] THEN Fail
              ELSE LET a == Append(acc, <<k[2], v[2]>>) IN
                   IF K(ts, v[3]) = "}" THEN <<TRUE, a, v[3] + 1>>
                   ELSE IF K(ts, v[3]) = "," THEN PPairs(ts, v[3] + 1, a)
                   ELSE Fail
(* acc = TRUE: at the opening brace; otherwise the statements so far *)
RECURSIVE PStmts(_, _, _)
PStmts(ts, p, acc) ==
    IF K(ts, p) = "}" THEN <<TRUE, acc, p + 1>>
    ELSE LET e == PExpr(ts, p, 1) IN
         IF ~e[1] THEN Fail
         ELSE PStmts(ts, IF K(ts, e[3]) = ";" THEN e[3] + 1 ELSE e[3], Append(acc, e[2]))
PBlock(ts, p, start) == IF K(ts, p) = "{" THEN PStmts(ts, p + 1, <<>>) ELSE Fail

(* programs: [ok, exprs, requests, tests]; a later definition of a name wins *)
NoProgram == [ok |-> FALSE, exprs |-> <<>>, requests |-> <<>>, tests |-> <<>>]
RECURSIVE PProgram(_, _, _)
PProgram(ts, p, prog) ==
    LET go(q, pr) == PProgram(ts, IF K(ts, q) = ";" THEN q + 1 ELSE q, pr) IN
    CASE K(ts, p) = "eof" -> prog
      [] K(ts, p) = "request" ->
            IF K(ts, p + 1) = "id" /\ K(ts, p + 2) = "tpl"
            THEN LET name == ts[p + 1][2]
                     msg == ts[p + 2][2]
                 IN IF K(ts, p + 3) = "["
                    THEN LET a == PList(ts, p + 4, "]", <<>>)
                         IN IF a[1] THEN go(a[3], [prog EXCEPT !.requests = (name :> <<msg, a[2]>>) @@ @]) ELSE NoProgram
                    ELSE go(p + 3, [prog EXCEPT !.requests = (name :> <<msg, <<>>>>) @@ @])
            ELSE NoProgram
      [] K(ts, p) = "test" ->
            IF K(ts, p + 1) = "id"
            THEN LET b == PBlock(ts, p + 2, TRUE)
                 IN IF b[1] THEN go(b[3], [prog EXCEPT !.tests = (ts[p + 1][2] :> b[2]) @@ @]) ELSE NoProgram
            ELSE NoProgram
      [] OTHER -> LET e == PExpr(ts, p, 1)
                  IN IF e[1] THEN go(e[3], [prog EXCEPT !.exprs = Append(@, e[2])]) ELSE NoProgram
Parse(text) == PProgram(Lex(text), 1, [NoProgram EXCEPT !.ok = TRUE])

---------------------------------------------------------------------------
(* 3. Values: null, booleans, numbers, strings, arrays, maps.               *)
(*   <<"null">> <<"bool", b>> <<"str", text>> <<"arr", seq>>                *)
(*   <<"map", function from texts to values>>                               *)
Truthy(v) == v # Null /\ v # Bool(FALSE)

RECURSIVE EqV(_, _)
EqV(a, b) ==
    IF a[1] # b[1] THEN FALSE
    ELSE CASE a[1] = "flt" -> FCmp(a, b) = 0
           [] a[1] = "arr" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : EqV(a[2][i], b[2][i])
           [] a[1] = "map" -> DOMAIN a[2] = DOMAIN b[2] /\ \A k \in DOMAIN a[2] : EqV(a[2][k], b[2][k])
           [] OTHER -> a = b
(* -1, 0, 1, or 2 if not ordered *)
CmpV(a, b) ==
    CASE a[1] = "int" /\ b[1] = "int" -> ICmp(a, b)
      [] a[1] = "flt" /\ b[1] = "flt" -> FCmp(a, b)
      [] a[1] = "int" /\ b[1] = "flt" -> FCmp(FOfInt(a), b)
      [] a[1] = "flt" /\ b[1] = "int" -> FCmp(a, FOfInt(b))
      [] a[1] = "str" /\ b[1] = "str" -> TextCmp(a[2], b[2])
      [] OTHER -> 2

(* displayed text.  The order of the entries of a map is not determined, nor are   *)
(* all texts with unusual characters within an array or a map: HasText(v) tells    *)
(* whether the text is determined, Text(v) is it, MatchText recognises all texts.  *)
EscOne(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
               [] c = 9 -> <<92, 116>> [] c = 0 -> <<92, 48>>
               [] c \in (1..31) \cup {127} -> S("\\u{") \o (IF c < 16 THEN <<>> ELSE <<48 + (c \div 16)>>)
                                                        \o (IF c % 16 < 10 THEN <<48 + (c % 16)>> ELSE <<87 + (c % 16)>>) \o <<125>>
               [] OTHER -> <<c>>
RECURSIVE EscRange(_, _, _)
EscRange(t, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN EscOne(t[a])
                     ELSE LET m == (a + b) \div 2 IN EscRange(t, a, m) \o EscRange(t, m + 1, b)
Quote(t) == <<34>> \o (IF \A i \in 1..Len(t) : t[i] > 34 /\ t[i] # 92 /\ t[i] # 127 THEN t ELSE EscRange(t, 1, Len(t))) \o <<34>>
(* characters shown as they are within quotes; others may also be shown as \u{hex} *)
Plain(c) == c < 128 \/ c \in 161..172 \/ c \in 174..767 \/ c \in 19968..40869 \/ c \in 128512..128591
PlainText(t) == \A i \in 1..Len(t) : Plain(t[i])
RECURSIVE HasInner(_)
HasInner(v) == CASE v[1] = "str" -> PlainText(v[2])
                 [] v[1] = "arr" -> \A i \in 1..Len(v[2]) : HasInner(v[2][i])
                 [] v[1] = "map" -> Cardinality(DOMAIN v[2]) <= 1 /\ \A k \in DOMAIN v[2] : PlainText(k) /\ HasInner(v[2][k])
                 [] OTHER -> TRUE
HasText(v) == v[1] = "str" \/ HasInner(v)
SLP == S("[") SRP == S("]") SComma == S(", ") SLB == S("{") SRB == S("}") SRPar == S(")")
SNull == S("null") SNullD == S("Null") STrue == S("true") SFalse == S("false")
SInteger == S("Integer(") SFloat == S("Float(") SString == S("String(") SBoolean == S("Boolean(")
SArray == S("Array(") SMap == S("Map(") SColon == S(": ")
RECURSIVE DebugText(_)
SeqText(q) == SLP \o JoinText([i \in 1..Len(q) |-> DebugText(q[i])], SComma) \o SRP
MapText(f) == SLB \o (IF DOMAIN f = {} THEN <<>> ELSE LET k == CHOOSE k \in DOMAIN f : TRUE IN Quote(k) \o SColon \o DebugText(f[k])) \o SRB
DebugText(v) == CASE v[1] = "null" -> SNullD
                  [] v[1] = "bool" -> SBoolean \o (IF v[2] THEN STrue ELSE SFalse) \o SRPar
                  [] v[1] = "int" -> SInteger \o IntText(v) \o SRPar
                  [] v[1] = "flt" -> SFloat \o FDebug(v) \o SRPar
                  [] v[1] = "str" -> SString \o Quote(v[2]) \o SRPar
                  [] v[1] = "arr" -> SArray \o SeqText(v[2]) \o SRPar
                  [] v[1] = "map" -> SMap \o MapText(v[2]) \o SRPar
TextOf(v) == CASE v[1] = "null" -> SNull
               [] v[1] = "bool" -> IF v[2] THEN STrue ELSE SFalse
               [] v[1] = "int" -> IntText(v)
               [] v[1] = "flt" -> FText(v)
               [] v[1] = "str" -> v[2]
               [] v[1] = "arr" -> SeqText(v[2])
               [] v[1] = "map" -> MapText(v[2])

(* position after a displayed (debug = FALSE) or nested (TRUE) text of v from p on, 0 if there is none *)
After(t, p, u) == IF p > 0 /\ StartsAt(t, p, u) THEN p + Len(u) ELSE 0
RECURSIVE HexText(_)
HexText(n) == (IF n < 16 THEN <<>> ELSE HexText(n \div 16)) \o (IF n % 16 < 10 THEN <<48 + (n % 16)>> ELSE <<87 + (n % 16)>>)
RECURSIVE QuoteFrom(_, _, _, _)
QuoteFrom(u, i, t, p) ==
    IF i > Len(u) THEN After(t, p, <<34>>)
    ELSE LET a == After(t, p, EscOne(u[i]))
         IN IF a # 0 THEN QuoteFrom(u, i + 1, t, a)
            ELSE IF Plain(u[i]) THEN 0
            ELSE LET b == After(t, p, S("\\u{") \o HexText(u[i]) \o <<125>>) IN IF b = 0 THEN 0 ELSE QuoteFrom(u, i + 1, t, b)
(* position after the quoted text u *)
AfterQuote(t, p, u) == LET a == After(t, p, Quote(u)) IN
                       IF a # 0 \/ PlainText(u) \/ p = 0 THEN a ELSE QuoteFrom(u, 1, t, After(t, p, <<34>>))
RECURSIVE MatchV(_, _, _, _), MatchItems(_, _, _, _), MatchEntries(_, _, _, _)
MatchItems(q, i, t, p) ==
    IF p = 0 THEN 0
    ELSE IF i > Len(q) THEN After(t, p, SRP)
    ELSE MatchItems(q, i + 1, t, MatchV(q[i], t, IF i = 1 THEN p ELSE After(t, p, SComma), TRUE))
MatchEntries(f, left, t, p) ==
    IF p = 0 THEN 0
    ELSE IF left = {} THEN After(t, p, SRB)
    ELSE LET b == IF left = DOMAIN f THEN p ELSE After(t, p, SComma)
             ks == {k \in left : After(t, AfterQuote(t, b, k), SColon) # 0}
         IN IF ks = {} THEN 0
            ELSE LET k == CHOOSE k \in ks : TRUE
                 IN MatchEntries(f, left \ {k}, t, MatchV(f[k], t, After(t, AfterQuote(t, b, k), SColon), TRUE))
MatchV(v, t, p, debug) ==
    IF p = 0 THEN 0
    ELSE CASE v[1] = "flt" -> IF debug THEN LET b == After(t, p, SFloat) IN IF b = 0 THEN 0 ELSE
                                            LET e == MatchFloat(v, t, b, TRUE) IN After(t, e, SRPar)
                              ELSE MatchFloat(v, t, p, FALSE)
           [] v[1] = "arr" -> IF debug THEN After(t, MatchItems(v[2], 1, t, After(t, p, SArray \o SLP)), SRPar)
                              ELSE MatchItems(v[2], 1, t, After(t, p, SLP))
           [] v[1] = "map" -> IF debug THEN After(t, MatchEntries(v[2], DOMAIN v[2], t, After(t, p, SMap \o SLB)), SRPar)
                              ELSE MatchEntries(v[2], DOMAIN v[2], t, After(t, p, SLB))
           [] v[1] = "str" /\ debug -> After(t, AfterQuote(t, After(t, p, SString), v[2]), SRPar)
           [] OTHER -> After(t, p, IF debug THEN DebugText(v) ELSE TextOf(v))
Shows(v, t) == MatchV(v, t, 1, FALSE) = Len(t) + 1
(* does a text look like the display of a value other than a string? (used only for error lines) *)
LooksLikeValue(t) ==
    \/ t \in {SNull, STrue, SFalse, S("inf"), S("-inf"), S("NaN")}
    \/ t # <<>> /\ t[1] \in {91, 123} /\ t[Len(t)] \in {93, 125}
    \/ t # <<>> /\ (\A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] \in {45, 46})

(* source text of an expression as shown in a report *)
RECURSIVE ExprText(_)
ExprsText(q, sep) == JoinText([i \in 1..Len(q) |-> ExprText(q[i])], sep)
ExprText(e) ==
    CASE e[1] = "lit" -> IF e[2][1] = "str" THEN <<34>> \o e[2][2] \o <<34>> ELSE TextOf(e[2])
      [] e[1] = "id" -> e[2]
      [] e[1] = "arr" -> SLP \o ExprsText(e[2], SComma) \o SRP
      [] e[1] = "map" -> SLB \o JoinText([i \in 1..Len(e[2]) |-> ExprText(e[2][i][1]) \o SColon \o ExprText(e[2][i][2])], SComma) \o SRB
      [] e[1] = "idx" -> ExprText(e[2]) \o SLP \o ExprText(e[3]) \o SRP
      [] e[1] = "fld" -> ExprText(e[2]) \o <<46>> \o e[3]
      [] e[1] = "let" -> S("let ") \o e[2] \o S(" = ") \o ExprText(e[3])
      [] e[1] = "un" -> S(e[2]) \o ExprText(e[3])
      [] e[1] = "bin" -> ExprText(e[3]) \o <<32>> \o S(e[2]) \o <<32>> \o ExprText(e[4])
      [] e[1] = "par" -> <<40>> \o ExprText(e[2]) \o <<41>>
      [] e[1] = "if" -> S("if (") \o ExprText(e[2]) \o S(") { ") \o ExprsText(e[3], S(";"))
                        \o (IF e[4] = <<>> THEN <<>> ELSE S("} else { ") \o ExprsText(e[4], S(";"))) \o S(" }")
      [] e[1] = "call" -> e[2] \o <<40>> \o ExprsText(e[3], SComma) \o <<41>>

---------------------------------------------------------------------------
(* 4. Operators on values: <<"ok", v>> or <<"err">>                         *)
Err == <<"err">>
Ok(v) == <<"ok", v>>
IntOk(v) == IF FitsI64(v) THEN Ok(v) ELSE Err
IsNum(v) == v[1] \in {"int", "flt"}
ToF(v) == IF v[1] = "int" THEN FOfInt(v) ELSE v
OpErr(x) == Err
Binary(op, a, b) ==
    LET ints == a[1] = "int" /\ b[1] = "int"
        nums == IsNum(a) /\ IsNum(b)
        x == ToF(a)
        y == ToF(b)
        c == CmpV(a, b)
    IN CASE op = "+" -> IF ints THEN IntOk(IAdd(a, b)) ELSE IF nums THEN Ok(FAdd(x, y))
                        ELSE IF a[1] = "str" /\ b[1] = "str" THEN Ok(Str(a[2] \o b[2])) ELSE Err
         [] op = "-" -> IF ints THEN IntOk(ISub(a, b)) ELSE IF nums THEN Ok(FSub(x, y)) ELSE Err
         [] op = "*" -> IF ints THEN IntOk(IMul(a, b)) ELSE IF nums THEN Ok(FMul(x, y)) ELSE Err
         [] op = "/" -> IF ints THEN (IF b[3] = <<>> THEN Err ELSE IntOk(IDiv(a, b))) ELSE IF nums THEN Ok(FDiv(x, y)) ELSE Err
         [] op = "%" -> IF ints THEN (IF b[3] = <<>> THEN Err ELSE Ok(IRem(a, b))) ELSE IF nums THEN Ok(FRem(x, y)) ELSE Err
         [] op = "&" -> IF ints THEN Ok(IAnd(a, b)) ELSE Err
         [] op = "|" -> IF ints THEN Ok(IOr(a, b)) ELSE Err
         [] op = "^" -> IF ints THEN Ok(IXor(a, b)) ELSE Err
         [] op = "<<" -> IF ints /\ IsCount(b) THEN Ok(IShl(a, ToNat(b[3]))) ELSE Err
         [] op = ">>" -> IF ints /\ IsCount(b) THEN Ok(IShr(a, ToNat(b[3]))) ELSE Err
         [] op = "==" -> Ok(Bool(EqV(a, b)))
         [] op = "!=" -> Ok(Bool(~EqV(a, b)))
         [] op = "<" -> Ok(Bool(c = -1))
         [] op = ">" -> Ok(Bool(c = 1))
         [] op = "<=" -> Ok(Bool(c \in {-1, 0}))
         [] op = ">=" -> Ok(Bool(c \in {0, 1}))
Unary(op, a) ==
    IF op = "!" THEN Ok(IF a[1] = "int" THEN INot(a) ELSE Bool(~Truthy(a)))
    ELSE IF a[1] = "int" THEN IntOk(INeg(a)) ELSE IF a[1] = "flt" THEN Ok(FNeg(a)) ELSE Err
Index(a, i) ==
    CASE a[1] = "arr" /\ i[1] = "int" ->
            Ok(IF ~i[2] /\ Small(i[3]) /\ ToNat(i[3]) < Len(a[2]) THEN a[2][ToNat(i[3]) + 1] ELSE Null)
      [] a[1] = "map" -> Ok(IF TextOf(i) \in DOMAIN a[2] THEN a[2][TextOf(i)] ELSE Null)
      [] OTHER -> Err

(* placeholders {name}: the first at or after p as <<first, last, name>>, or <<>> *)
RECURSIVE Hole(_, _)
Hole(t, p) ==
    LET b == Find(t, p, 123) IN
    IF b > Len(t) THEN <<>>
    ELSE LET n == RunEnd(t, b + 1, IsSpace)
             e == IF n <= Len(t) /\ IsIdentStart(t[n]) THEN RunEnd(t, n, IsIdentPart) ELSE n
             z == RunEnd(t, e, IsSpace)
         IN IF e > n /\ z <= Len(t) /\ t[z] = 125 THEN <<b, z, SubSeq(t, n, e - 1)>> ELSE Hole(t, b + 1)
RECURSIVE Holes(_, _)
Holes(t, p) == LET h == Hole(t, p) IN IF h = <<>> THEN <<>> ELSE <<h>> \o Holes(t, h[2] + 1)
(* the text with its i-th hole replaced by rs[i] *)
RECURSIVE FillFrom(_, _, _, _, _)
FillFrom(t, hs, rs, i, p) == IF i > Len(hs) THEN SubSeq(t, p, Len(t))
                             ELSE SubSeq(t, p, hs[i][1] - 1) \o rs[i] \o FillFrom(t, hs, rs, i + 1, hs[i][2] + 1)
Fill(t, hs, rs) == FillFrom(t, hs, rs, 1, 1)

(* built-in functions: <<"ok", value, printed text>>, <<"err">> or <<"any">> (text not determined) *)
Format(args) ==
    IF args = <<>> THEN Err
    ELSE IF args[1][1] # "str" THEN Err
    ELSE LET t == args[1][2]
             hs == Holes(t, 1)
         IN IF Len(hs) # Len(args) - 1 THEN Err
            ELSE IF \E i \in 2..Len(args) : ~HasText(args[i]) THEN <<"any">>
            ELSE <<"ok", Fill(t, hs, [i \in 1..Len(hs) |-> TextOf(args[i + 1])]), <<>>>>
Builtin(name, args) ==
    CASE name = S("format") -> LET f == Format(args) IN IF f[1] = "ok" THEN <<"ok", Str(f[2]), <<>>>> ELSE f
      [] name = S("print") -> LET f == Format(args) IN IF f[1] = "ok" THEN <<"ok", Null, f[2]>> ELSE f
      [] name = S("println") -> LET f == Format(args) IN IF f[1] = "ok" THEN <<"ok", Null, Append(f[2], LF)>> ELSE f
      [] name = S("length") ->
            IF Len(args) # 1 THEN Err
            ELSE CASE args[1][1] = "str" -> <<"ok", IntOf(Utf8Len(args[1][2])), <<>>>>
                   [] args[1][1] = "arr" -> <<"ok", IntOf(Len(args[1][2])), <<>>>>
                   [] args[1][1] = "map" -> <<"ok", IntOf(Cardinality(DOMAIN args[1][2])), <<>>>>
                   [] OTHER -> Err
      [] name = S("append") ->
            IF args = <<>> THEN Err
            ELSE IF args[1][1] # "arr" THEN Err
            ELSE <<"ok", <<"arr", args[1][2] \o Tail(args)>>, <<>>>>
      [] OTHER -> Err

---------------------------------------------------------------------------
(* 5. Responses as the script sees them.                                    *)
(* a response is a record as in Http *)
HeaderMap(hs) == LET names == {hs[i][1] : i \in 1..Len(hs)}
                     vals(n) == LET vs == SelectSeq(hs, LAMBDA h : h[1] = n) IN TLCEval([i \in 1..Len(vs) |-> Str(vs[i][2])])
                 IN TLCEval([n \in names |-> <<"arr", vals(n)>>])
(* the value of a body that is no JSON text: what it denotes read with the language's own grammar, if it is a text of it *)
RECURSIVE Data(_)
Data(e) == CASE e[1] = "lit" -> e[2]
             [] e[1] = "arr" -> <<"arr", TLCEval([i \in 1..Len(e[2]) |-> Data(e[2][i])])>>
             [] e[1] = "map" -> <<"map", FoldLeft(LAMBDA f, kv : (TextOf(Data(kv[1])) :> Data(kv[2])) @@ f, <<>>, e[2])>>
             [] e[1] = "un" -> IF e[2] = "-" THEN LET v == Data(e[3]) IN IF v[1] = "int" THEN INeg(v) ELSE IF v[1] = "flt" THEN FNeg(v) ELSE Null ELSE Null
             [] OTHER -> Null
ResponseMap(r) ==
    LET j == JsonOf(r.body)
        p == Parse(r.body)
        base == (S("version") :> Str(r.version)) @@ (S("status") :> IntOf(r.status)) @@ (S("reason") :> Str(r.reason))
                @@ (S("headers") :> <<"map", HeaderMap(r.headers)>>) @@ (S("body") :> Str(r.body))
    IN IF j # <<>> THEN (S("json") :> j[1]) @@ base
       ELSE IF p.ok /\ p.exprs # <<>> THEN (S("json") :> Data(p.exprs[1])) @@ base ELSE base

---------------------------------------------------------------------------
(* 6. Evaluation.  State: bindings, requests, printed text, exchanges made, *)
(* responses to come from the servers srv (pairs of host and port); no      *)
(* other address answers.  Result: [o, v, s] with o = "ok", "err" or "any"      *)
(* (outcome not determined by this specification).                          *)
NoState == [env |-> <<>>, reqs |-> <<>>, out |-> <<>>, cuts |-> <<>>, recs |-> <<>>, feed |-> <<>>, srv |-> {}]
R(v, s) == [o |-> "ok", v |-> v, s |-> s]
Bad(s) == [o |-> "err", v |-> Null, s |-> s]
Open(s) == [o |-> "any", v |-> Null, s |-> s]
With(res, s) == IF res[1] = "ok" THEN R(res[2], s) ELSE IF res[1] = "err" THEN Bad(s) ELSE Open(s)

RECURSIVE Eval(_, _), EvalSeq(_, _, _, _), EvalPairs(_, _, _, _), EvalBlock(_, _, _, _), EvalAsserts(_, _, _, _), CallRequest(_, _)
EvalSeq(es, i, acc, s) ==       \* values from left to right, v = sequence
    IF i > Len(es) THEN R(acc, s)
    ELSE LET r == Eval(es[i], s) IN IF r.o = "ok" THEN EvalSeq(es, i + 1, Append(acc, r.v), r.s) ELSE r
EvalPairs(ps, i, f, s) ==
    IF i > Len(ps) THEN R(<<"map", f>>, s)
    ELSE LET k == Eval(ps[i][1], s) IN
         IF k.o # "ok" THEN k
         ELSE LET v == Eval(ps[i][2], k.s) IN
              IF v.o # "ok" THEN v
              ELSE IF ~HasText(k.v) THEN Open(v.s)
              ELSE EvalPairs(ps, i + 1, (TextOf(k.v) :> v.v) @@ f, v.s)
EvalBlock(es, i, last, s) ==
    IF i > Len(es) THEN R(last, s)
    ELSE LET r == Eval(es[i], s) IN IF r.o = "ok" THEN EvalBlock(es, i + 1, r.v, r.s) ELSE r
Comparisons == {"<", ">", "<=", ">=", "==", "!="}
(* the assertions of a request, each against the bindings of the response only *)
OrNull(r) == IF r.o = "err" THEN Null ELSE r.v
EvalAsserts(as, i, acc, s) ==
    IF i > Len(as) THEN R(acc, s)
    ELSE IF as[i][1] = "bin" /\ as[i][2] \in Comparisons
    THEN LET l == Eval(as[i][3], s)
             r == Eval(as[i][4], l.s)
             x == OrNull(l)
             y == OrNull(r)
         IN IF l.o = "any" \/ r.o = "any" THEN Open(r.s)
            ELSE EvalAsserts(as, i + 1, Append(acc, [expr |-> as[i], left |-> x, cmp |-> as[i][2], right |-> y,
                                                     res |-> Binary(as[i][2], x, y)[2][2]]), r.s)
    ELSE LET v == Eval(as[i], s)
             b == Truthy(OrNull(v))
         IN IF v.o = "any" THEN v
            ELSE EvalAsserts(as, i + 1, Append(acc, [expr |-> as[i], left |-> Bool(b), cmp |-> "==", right |-> Bool(TRUE), res |-> b]), v.s)
(* exchange: [name, msg, sent, resp, asserts, pos]; sent: a connection was obtained; pos: what had been printed before *)
CallRequest(name, s) ==
    LET tpl == s.reqs[name][1]
        hs == Holes(tpl, 1)
        val(i) == IF hs[i][3] \in DOMAIN s.env THEN s.env[hs[i][3]] ELSE Null
        msg == Fill(tpl, hs, [i \in 1..Len(hs) |-> TextOf(val(i))])
        u == Request(msg).url
        sent == <<u.host, u.port>> \in s.srv /\ (u.https => CanBeNamed(u.host))
        resp == IF sent /\ s.feed # <<>> THEN s.feed[1] ELSE NoResponse
        local == [NoState EXCEPT !.env = ResponseMap(resp), !.out = s.out, !.cuts = s.cuts]
        as == EvalAsserts(s.reqs[name][2], 1, <<>>, local)
    IN IF \E i \in 1..Len(hs) : ~HasText(val(i)) THEN Open(s)
       ELSE IF as.o # "ok" THEN Open(s)
       ELSE R(<<"map", as.s.env>>,
              [s EXCEPT !.out = as.s.out, !.cuts = as.s.cuts,
                        !.feed = IF sent /\ @ # <<>> THEN Tail(@) ELSE @,
                        !.recs = Append(@, [name |-> name, msg |-> msg, sent |-> sent, resp |-> resp, asserts |-> as.v, pos |-> Len(s.out)])])
Eval(e, s) ==
    CASE e[1] = "lit" -> R(e[2], s)
      [] e[1] = "id" -> IF e[2] \in DOMAIN s.env THEN R(s.env[e[2]], s) ELSE Bad(s)
      [] e[1] = "par" -> Eval(e[2], s)
      [] e[1] = "arr" -> LET r == EvalSeq(e[2], 1, <<>>, s) IN IF r.o = "ok" THEN R(<<"arr", r.v>>, r.s) ELSE r
      [] e[1] = "map" -> EvalPairs(e[2], 1, <<>>, s)
      [] e[1] = "let" -> LET r == Eval(e[3], s) IN
                         IF r.o = "ok" THEN R(r.v, [r.s EXCEPT !.env = (e[2] :> r.v) @@ @]) ELSE r
      [] e[1] = "un" -> LET r == Eval(e[3], s) IN IF r.o = "ok" THEN With(Unary(e[2], r.v), r.s) ELSE r
      [] e[1] = "bin" /\ e[2] \in {"||", "&&"} ->
            LET l == Eval(e[3], s) IN
            IF l.o # "ok" THEN l
            ELSE IF Truthy(l.v) = (e[2] = "||") THEN l
            ELSE Eval(e[4], l.s)
      [] e[1] = "bin" ->
            LET l == Eval(e[3], s) IN
            IF l.o # "ok" THEN l
            ELSE LET r == Eval(e[4], l.s) IN IF r.o = "ok" THEN With(Binary(e[2], l.v, r.v), r.s) ELSE r
      [] e[1] = "idx" ->
            LET l == Eval(e[2], s) IN
            IF l.o # "ok" THEN l
            ELSE LET r == Eval(e[3], l.s) IN
                 IF r.o # "ok" THEN r
                 ELSE IF l.v[1] = "map" /\ ~HasText(r.v) THEN Open(r.s)
                 ELSE With(Index(l.v, r.v), r.s)
      [] e[1] = "fld" -> LET l == Eval(e[2], s) IN
                         IF l.o # "ok" THEN l
                         ELSE IF l.v[1] = "map" THEN R(IF e[3] \in DOMAIN l.v[2] THEN l.v[2][e[3]] ELSE Null, l.s)
                         ELSE Bad(l.s)
      [] e[1] = "if" -> LET c == Eval(e[2], s) IN
                        IF c.o # "ok" THEN c
                        ELSE EvalBlock(IF Truthy(c.v) THEN e[3] ELSE e[4], 1, Null, c.s)
      [] e[1] = "call" ->
            LET a == EvalSeq(e[3], 1, <<>>, s) IN
            IF a.o # "ok" THEN a
            ELSE IF e[2] \in DOMAIN a.s.reqs THEN CallRequest(e[2], a.s)
            ELSE LET b == Builtin(e[2], a.v)
                 IN IF b[1] = "ok" THEN R(b[2], IF b[3] = <<>> THEN a.s ELSE [a.s EXCEPT !.out = @ \o b[3], !.cuts = Append(@, Len(a.s.out) + Len(b[3]))]) ELSE With(b, a.s)

(* one text in a session: definitions first, then the statements in order *)
Run(text, s) == LET p == Parse(text) IN
                IF ~p.ok THEN Bad(s)
                ELSE EvalBlock(p.exprs, 1, Null, [s EXCEPT !.reqs = p.requests @@ @])
===========================================================================

------------------------------- MODULE MCJson -------------------------------
(* Every JSON value is read back from its texts (in every layout and, for    *)
(* strings and numbers, in every way of writing them), and no proper prefix  *)
(* of a structured text is a text.  The language's own grammar agrees on the *)
(* texts without escapes, exponents and numbers beyond 64 bits.              *)
EXTENDS Lang

VARIABLES val, text, plain, done
Z == <<48>>
(* leaves: <<value, text, does the language read it alike>> *)
Leaves == {<<Null, S("null"), TRUE>>, <<Bool(TRUE), S("true"), TRUE>>, <<Bool(FALSE), S("false"), TRUE>>,
           <<IntOf(0), Z, TRUE>>, <<IntOf(-7), S("-7"), TRUE>>, <<I(TRUE, Pow63), S("-9223372036854775808"), FALSE>>,
           <<I(FALSE, Max63), S("9223372036854775807"), TRUE>>, <<FOfDecimal(FALSE, S("9223372036854775808"), <<>>), S("9223372036854775808"), FALSE>>,
           <<FOfText(FALSE, S("1.5")), S("1.5"), TRUE>>, <<FOfText(TRUE, S("0.25")), S("-0.25"), TRUE>>,
           <<FOfText(FALSE, S("1500.0")), S("1.5e3"), FALSE>>, <<FOfText(FALSE, S("0.0125")), S("12.5E-3"), FALSE>>, <<FOfText(TRUE, S("20.0")), S("-2E+1"), FALSE>>,
           <<FOfText(FALSE, S("0.012")), S("12e-3"), FALSE>>, <<FOfText(FALSE, S("1.2")), S("12e-1"), FALSE>>, <<FOfText(FALSE, S("1.25")), S("0.125e1"), FALSE>>,
           <<Str(<<>>), <<34, 34>>, TRUE>>, <<Str(S("a b")), <<34, 97, 32, 98, 34>>, TRUE>>, <<Str(<<233, 19990, 128512>>), <<34, 233, 19990, 128512, 34>>, TRUE>>,
           <<Str(<<34, 92, 47, 8, 12, 10, 13, 9>>), <<34, 92, 34, 92, 92, 92, 47, 92, 98, 92, 102, 92, 110, 92, 114, 92, 116, 34>>, FALSE>>,
           <<Str(<<233, 128512, 33>>), <<34>> \o S("\\u00e9\\uD83D\\uDE00!") \o <<34>>, FALSE>>}
Layouts == {<<>>, <<32>>, <<13, 10, 9>>}
Arr(xs, w) == <<<<"arr", [i \in 1..Len(xs) |-> xs[i][1]]>>, <<91>> \o w \o JoinText([i \in 1..Len(xs) |-> xs[i][2] \o w], <<44>> \o w) \o <<93>>, \A i \in 1..Len(xs) : xs[i][3]>>
Key(n) == <<34>> \o n \o <<34>>
Map(ks, xs, w) == <<<<"map", FoldLeft(LAMBDA f, i : (ks[i] :> xs[i][1]) @@ f, <<>>, [i \in 1..Len(ks) |-> i])>>,
                    <<123>> \o w \o JoinText([i \in 1..Len(ks) |-> Key(ks[i]) \o w \o <<58>> \o w \o xs[i][2] \o w], <<44>> \o w) \o <<125>>, \A i \in 1..Len(xs) : xs[i][3]>>
Names == {S("a"), S("k 2"), <<>>}
Level1 == UNION {{Arr(<<>>, w), Map(<<>>, <<>>, w)} : w \in Layouts} \cup {Arr(<<x>>, w) : x \in Leaves, w \in Layouts}
          \cup {Arr(<<x, y>>, <<32>>) : x \in Leaves, y \in Leaves}
          \cup {Map(<<n>>, <<x>>, w) : n \in Names, x \in Leaves, w \in Layouts}
          \cup {Map(<<n, m>>, <<x, y>>, <<>>) : n \in Names, m \in Names, x \in Leaves, y \in {z \in Leaves : z[3]}}
Level2 == {Arr(<<x, Arr(<<y>>, <<32>>), Map(<<S("z")>>, <<x>>, <<>>)>>, w) : x \in Leaves, y \in Leaves, w \in Layouts}
          \cup {Map(<<S("a"), S("b")>>, <<Arr(<<x, y>>, <<>>), Map(<<S("c")>>, <<Arr(<<>>, <<>>)>>, <<>>)>>, w) : x \in Leaves, y \in Leaves, w \in Layouts}
Init == /\ \E x \in Leaves \cup Level1 \cup Level2 : \E w \in (IF x \in Leaves THEN Layouts ELSE {<<>>}) : val = x[1] /\ text = w \o x[2] \o w /\ plain = x[3]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<val, text, plain>>
Same(a) == a # <<>> /\ EqV(a[1], val)
ReadsBack == done => Same(JsonOf(text))
Agrees == done /\ plain => LET p == Parse(text) IN p.ok /\ Len(p.exprs) = 1 /\ EqV(Data(p.exprs[1]), val)
NoPrefix == done /\ val[1] \in {"arr", "map", "str"} => \A n \in 0..(Len(Trim(text)) - 1) : JsonOf(SubSeq(Trim(text), 1, n)) = <<>>
===========================================================================

----------------------------- MODULE JsonText -----------------------------
(* JSON texts (RFC 8259) and the values they denote, independent of the     *)
(* script language.  Values as in Lang.                                     *)
EXTENDS Num

Null == <<"null">>
Bool(b) == <<"bool", b>>
Str(t) == <<"str", t>>

JSpace(c) == c \in {32, 9, 10, 13}
JSkip(t, p) == RunEnd(t, p, JSpace)
JAt(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
JHex(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
(* four hexadecimal digits at p, -1 if there are none *)
JHex4(t, p) == IF p + 3 > Len(t) THEN -1
               ELSE IF \E i \in 0..3 : JHex(t[p + i]) < 0 THEN -1
               ELSE 4096 * JHex(t[p]) + 256 * JHex(t[p + 1]) + 16 * JHex(t[p + 2]) + JHex(t[p + 3])
JEscapes == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
(* the characters of a string from p to its closing quote -> <<text, position after the quote>> *)
RECURSIVE JString(_, _, _)
JString(t, p, acc) ==
    LET e == First(p, Len(t), LAMBDA i : t[i] \in {34, 92} \/ t[i] < 32)
        u == acc \o SubSeq(t, p, e - 1)
        c == JAt(t, e + 1)
        h == JHex4(t, e + 2)
        l == IF JAt(t, e + 6) = 92 /\ JAt(t, e + 7) = 117 THEN JHex4(t, e + 8) ELSE -1
    IN IF e > Len(t) THEN <<>>
       ELSE IF t[e] = 34 THEN <<u, e + 1>>
       ELSE IF t[e] < 32 THEN <<>>
       ELSE IF c \in DOMAIN JEscapes THEN JString(t, e + 2, Append(u, JEscapes[c]))
       ELSE IF c # 117 \/ h < 0 THEN <<>>
       ELSE IF h \in 55296..56319 /\ l \in 56320..57343 THEN JString(t, e + 12, Append(u, 65536 + (h - 55296) * 1024 + l - 56320))
       ELSE IF h \in 55296..57343 THEN JString(t, e + 6, Append(u, 65533))      \* half of a pair: no character
       ELSE JString(t, e + 6, Append(u, h))
(* a number -> <<value, next>> *)
JNumber(t, p) ==
    LET neg == t[p] = 45
        a == IF neg THEN p + 1 ELSE p
        b == RunEnd(t, a, IsDigit)
        ip == SubSeq(t, a, b - 1)
        dot == JAt(t, b) = 46
        c == IF dot THEN RunEnd(t, b + 1, IsDigit) ELSE b
        fp == IF dot THEN SubSeq(t, b + 1, c - 1) ELSE <<>>
        ex == JAt(t, c) \in {69, 101}
        sg == IF ex /\ JAt(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
        d == IF ex THEN RunEnd(t, sg, IsDigit) ELSE c
        en == FoldLeft(LAMBDA x, y : IF x > 400 THEN 401 ELSE 10 * x + (y - 48), 0, SubSeq(t, sg, d - 1))
        down == JAt(t, c + 1) = 45
        v == I(neg, BOfDigits(ip))
    IN IF b = a \/ (b > a + 1 /\ t[a] = 48) \/ (dot /\ c = b + 1) \/ (ex /\ d = sg) THEN <<>>
       ELSE IF ~dot /\ ~ex THEN <<IF FitsI64(v) THEN v ELSE FOfDecimal(neg, ip, <<>>), d>>
       ELSE IF ~ex THEN <<FOfDecimal(neg, ip, fp), d>>
       ELSE IF down THEN <<FOfDecimal(neg, SubSeq(Zeros(en) \o ip, 1, Len(ip)), SubSeq(Zeros(en) \o ip, Len(ip) + 1, Len(ip) + en) \o fp), d>>
       ELSE <<FOfDecimal(neg, ip \o SubSeq(fp \o Zeros(en), 1, en), SubSeq(fp, en + 1, Len(fp))), d>>
JWord(t, p, w, v) == IF StartsAt(t, p, w) THEN <<v, p + Len(w)>> ELSE <<>>
RECURSIVE JValue(_, _), JItems(_, _, _), JPairs(_, _, _)
(* the value that starts at p -> <<value, next>>, <<>> if there is none *)
JValue(t, p0) ==
    LET p == JSkip(t, p0)
        c == JAt(t, p)
    IN CASE c = 34 -> LET s == JString(t, p + 1, <<>>) IN IF s = <<>> THEN <<>> ELSE <<Str(s[1]), s[2]>>
         [] c = 45 \/ IsDigit(c) -> JNumber(t, p)
         [] c = 91 -> IF JAt(t, JSkip(t, p + 1)) = 93 THEN <<<<"arr", <<>>>>, JSkip(t, p + 1) + 1>> ELSE JItems(t, p + 1, <<>>)
         [] c = 123 -> IF JAt(t, JSkip(t, p + 1)) = 125 THEN <<<<"map", <<>>>>, JSkip(t, p + 1) + 1>> ELSE JPairs(t, p + 1, <<>>)
         [] c = 116 -> JWord(t, p, S("true"), Bool(TRUE))
         [] c = 102 -> JWord(t, p, S("false"), Bool(FALSE))
         [] c = 110 -> JWord(t, p, S("null"), Null)
         [] OTHER -> <<>>
JItems(t, p, acc) ==
    LET v == JValue(t, p)
        q == JSkip(t, v[2])
    IN IF v = <<>> THEN <<>>
       ELSE IF JAt(t, q) = 44 THEN JItems(t, q + 1, Append(acc, v[1]))
       ELSE IF JAt(t, q) = 93 THEN <<<<"arr", Append(acc, v[1])>>, q + 1>> ELSE <<>>
JPairs(t, p, acc) ==
    LET a == JSkip(t, p)
        k == IF JAt(t, a) = 34 THEN JString(t, a + 1, <<>>) ELSE <<>>
        m == JSkip(t, k[2])
        v == JValue(t, m + 1)
        q == JSkip(t, v[2])
        f == (k[1] :> v[1]) @@ acc
    IN IF k = <<>> THEN <<>>
       ELSE IF JAt(t, m) # 58 THEN <<>>
       ELSE IF v = <<>> THEN <<>>
       ELSE IF JAt(t, q) = 44 THEN JPairs(t, q + 1, f)
       ELSE IF JAt(t, q) = 125 THEN <<<<"map", f>>, q + 1>> ELSE <<>>
(* <<value>> if t is a JSON text, else <<>> *)
JsonOf(t) == LET v == JValue(t, 1) IN
             IF v = <<>> THEN <<>> ELSE IF JSkip(t, v[2]) > Len(t) THEN <<v[1]>> ELSE <<>>
===========================================================================

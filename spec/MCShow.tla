------------------------------- MODULE MCShow -------------------------------
(* The displayed text of every value of a pool denotes that value: a float's is found here from the interval of the  *)
(* numbers that round to it, and is compared with what reading (division and rounding) makes of it and its neighbours. *)
EXTENDS Lang

VARIABLES mant, expo, seen
Mants == {<<1>>, <<3>>, <<5>>, <<25>>, BNat(1023), BNat(10001), BNat(999999999), BOfDigits(S("4503599627370496")),
          BOfDigits(S("4503599627370497")), BOfDigits(S("9007199254740991")), BOfDigits(S("9007199254740990")),
          BOfDigits(S("8888888888888887")), BOfDigits(S("7205759403792794"))}
Expos == {-72, -70, -67, -64} \cup (-61)..(-35) \cup {-30, -25, -20, -14, -10, -8} \cup (-5)..5 \cup {10, 24, 60, 200}
Far == {<<<<1>>, -1074>>, <<<<3>>, -1074>>, <<<<1>>, -1022>>, <<BOfDigits(S("9007199254740991")), 971>>, <<BOfDigits(S("4503599627370497")), -300>>}
FOf(m, e) == IF e >= 0 THEN RoundF(FALSE, BShl(m, e), 0, FALSE) ELSE RoundF(FALSE, m, -e, FALSE)
Init == (\E q \in (Mants \X Expos) \cup Far : mant = q[1] /\ expo = q[2]) /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<mant, expo>>        \* the work is done by all workers

FOfSci(c, e) == IF e >= 0 THEN RoundF(FALSE, BMul(c, Pow10(e)), 0, FALSE) ELSE RatioF(FALSE, c, Pow10(-e), 0)
Digits(a, k) == BOfDigits(SubSeq(Around(a[4], a[5]).at, 1, k))
Small2(e) == e \in (-72)..24
ReadsBack(f) ==
    LET q == Shortest(f) n == Len(q[1]) c == BOfDigits(q[1]) e == q[2] - n
        exact == Around(f[4], f[5])
        first(k) == BOfDigits(SubSeq(exact.at, 1, k))
        pt == Len(exact.at) - exact.s
    IN /\ FOfSci(c, e) = f
       /\ n <= 17 /\ q[1][1] # 48 /\ q[1][n] # 48
       \* nothing shorter reads back
       /\ n > 1 => /\ FOfSci(first(n - 1), pt - n + 1) # f
                   /\ FOfSci(BAdd(first(n - 1), One), pt - n + 1) # f
       \* the other neighbour of this length is no better
       /\ Len(exact.at) > n => LET lo == first(n) hi == BAdd(lo, One) up == exact.at[n + 1] >= 53
                               IN \/ BDigits(lo) = q[1] /\ (~up \/ FOfSci(hi, pt - n) # f)
                                  \/ StripZeros(BDigits(hi)) = q[1] /\ (up \/ FOfSci(lo, pt - n) # f)
Lit(t) == Run(t, NoState)
(* through the language: the text is a literal of the value, a key of a map, and what format makes of it *)
SKey == S("let a = ") SRest == S("; let m = {a: 7}; let t = format(\"{x}\", a); [m[a], m[t], t, format(\"{y}{y}\", t, a) == t + t]")
InLanguage(f) ==
    LET t == FText(f)
        lit == IF Find(t, 1, 46) > Len(t) THEN t \o S(".0") ELSE t
        r == Lit(SKey \o lit \o SRest)
    IN /\ Lit(lit).o = "ok" /\ Lit(lit).v = f
       /\ r.o = "ok" /\ r.v = <<"arr", <<IntOf(7), IntOf(7), <<"str", t>>, Bool(TRUE)>>>>
Shown == ~seen \/ LET f == FOf(mant, expo) g == FAdd(f, FOf(<<1>>, Max2(BitLen(f[4]) - f[5] - 53, -1074))) IN
         IsInf(f) \/ (/\ ReadsBack(f)
                      /\ FText(f) # FText(g) /\ FCmp(f, g) = -1
                      /\ FText(FNeg(f)) = <<45>> \o FText(f)
                      /\ Len(FText(f)) < 340 => MatchFloat(f, FText(f), 1, FALSE) = Len(FText(f)) + 1
                      /\ MatchFloat(f, FDebug(f), 1, TRUE) = Len(FDebug(f)) + 1
                      /\ Small2(expo) => InLanguage(f))
ASSUME /\ FText(NaN) = S("NaN") /\ FText(Inf(TRUE)) = S("-inf") /\ FText(FZero(FALSE)) = S("0") /\ FText(FZero(TRUE)) = S("-0")
       /\ FDebug(FOf(<<1>>, 0)) = S("1.0") /\ FDebug(FOf(<<1>>, -14)) = S("6.103515625e-5") /\ FDebug(FOf(<<1>>, 54)) = S("1.8014398509481984e16")
       /\ FText(RatioF(FALSE, <<1>>, <<10>>, 0)) = S("0.1") /\ FText(FAdd(RatioF(FALSE, <<1>>, <<10>>, 0), RatioF(FALSE, <<2>>, <<10>>, 0))) = S("0.30000000000000004")
       /\ FText(FOf(<<1>>, -1074)) = S("0.") \o Zeros(323) \o <<53>>
=============================================================================

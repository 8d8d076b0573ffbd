-------------------------------- MODULE Num --------------------------------
(* Numbers of the script language: 64-bit two's complement integers and     *)
(* IEEE 754 doubles, exactly, over the natural numbers of module Big.       *)
(*   <<"int", neg, mag>>              (-1)^neg * mag                        *)
(*   <<"flt", "fin", neg, mag, s>>    (-1)^neg * mag / 2^s, s >= 0,         *)
(*                                    mag odd if s > 0                      *)
(*   <<"flt", "inf", neg, <<>>, 0>>   <<"flt", "nan", FALSE, <<>>, 0>>      *)
EXTENDS Big, Text

---------------------------------------------------------------------------
(* integers *)
I(neg, mag) == <<"int", neg /\ mag # <<>>, mag>>
IntOf(n) == IF n < 0 THEN I(TRUE, BNat(-n)) ELSE I(FALSE, BNat(n))
Max63 == <<255, 255, 255, 255, 255, 255, 255, 127>>          \* 2^63 - 1
Pow63 == <<0, 0, 0, 0, 0, 0, 0, 128>>                        \* 2^63
FitsI64(x) == Len(x[3]) < 8 \/ BCmp(x[3], IF x[2] THEN Pow63 ELSE Max63) <= 0

IAdd(a, b) == IF a[2] = b[2] THEN I(a[2], BAdd(a[3], b[3]))
              ELSE IF BCmp(a[3], b[3]) >= 0 THEN I(a[2], BSub(a[3], b[3]))
              ELSE I(b[2], BSub(b[3], a[3]))
INeg(a) == I(~a[2], a[3])
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == I(a[2] # b[2], BMul(a[3], b[3]))
IDiv(a, b) == I(a[2] # b[2], BDiv(a[3], b[3])[1])            \* truncates towards zero
IRem(a, b) == I(a[2], BDiv(a[3], b[3])[2])                   \* sign of the dividend
ICmp(a, b) == IF a[2] # b[2] THEN (IF a[2] THEN -1 ELSE 1)
              ELSE IF a[2] THEN BCmp(b[3], a[3]) ELSE BCmp(a[3], b[3])

(* two's complement image of 8 bytes and back *)
Pad8(m) == [i \in 1..8 |-> At(m, i)]
RECURSIVE IncFrom(_, _)
IncFrom(b, i) == IF i > 8 THEN b ELSE IF b[i] = 255 THEN IncFrom([b EXCEPT ![i] = 0], i + 1) ELSE [b EXCEPT ![i] = @ + 1]
Flip(b) == [i \in 1..8 |-> 255 - b[i]]
Bits(x) == IF x[2] THEN IncFrom(Flip(Pad8(x[3])), 1) ELSE Pad8(x[3])
OfBits(b) == IF b[8] >= 128 THEN I(TRUE, BTrim(IncFrom(Flip(b), 1))) ELSE I(FALSE, BTrim(b))
IAnd(a, b) == LET x == Bits(a) y == Bits(b) IN OfBits([i \in 1..8 |-> x[i] & y[i]])
IOr(a, b)  == LET x == Bits(a) y == Bits(b) IN OfBits([i \in 1..8 |-> x[i] | y[i]])
IXor(a, b) == LET x == Bits(a) y == Bits(b) IN OfBits([i \in 1..8 |-> x[i] ^^ y[i]])
INot(a) == OfBits(Flip(Bits(a)))
(* shifts by 0..63 places; << keeps the low 64 bits, >> is arithmetic *)
IShl(a, k) == LET b == BShl(BTrim(Bits(a)), k) IN OfBits(Pad8(b))
IShr(a, k) == IF a[2] THEN \* floor division of a negative number
                 I(TRUE, BAdd(BShr(BSub(a[3], One), k), One))
              ELSE I(FALSE, BShr(a[3], k))
IsCount(b) == ~b[2] /\ Len(b[3]) <= 1 /\ ToNat(b[3]) <= 63

IntText(x) == (IF x[2] THEN <<45>> ELSE <<>>) \o BDigits(x[3])

---------------------------------------------------------------------------
(* floats *)
NaN == <<"flt", "nan", FALSE, <<>>, 0>>
Inf(neg) == <<"flt", "inf", neg, <<>>, 0>>
FZero(neg) == <<"flt", "fin", neg, <<>>, 0>>
IsNaN(a) == a[2] = "nan"
IsInf(a) == a[2] = "inf"
IsZeroF(a) == a[2] = "fin" /\ a[4] = <<>>

RECURSIVE Canon(_, _)
Canon(m, s) == IF s = 0 \/ m = <<>> THEN <<m, IF m = <<>> THEN 0 ELSE s>>
               ELSE IF s >= 8 /\ m[1] = 0 THEN Canon(Tail(m), s - 8)
               ELSE IF m[1] % 2 = 0 THEN Canon(BShr(m, 1), s - 1)
               ELSE <<m, s>>
(* nearest double to (-1)^neg * (m + sticky) / 2^s, ties to even *)
RoundF(neg, m, s, sticky) ==
    LET drop == Max2(BitLen(m) - 53, s - 1074)
        q0 == BShr(m, drop)
        half == Bit(m, drop - 1) = 1
        rest == sticky \/ ~LowZero(m, drop - 1)
        odd == q0 # <<>> /\ q0[1] % 2 = 1
        q == IF half /\ (rest \/ odd) THEN BAdd(q0, One) ELSE q0
        m1 == IF drop <= 0 THEN m ELSE q
        s1 == IF drop <= 0 THEN s ELSE s - drop
        c == IF s1 < 0 THEN <<BShl(m1, -s1), 0>> ELSE Canon(m1, s1)
    IN IF BitLen(c[1]) - c[2] > 1024 THEN Inf(neg) ELSE <<"flt", "fin", neg, c[1], c[2]>>
FOfInt(x) == RoundF(x[2], x[3], 0, FALSE)
(* quotient of two natural numbers n / d scaled by 2^-s, d # 0 *)
RatioF(neg, n, d, s) ==
    IF n = <<>> THEN FZero(neg)
    ELSE LET k == Max2(0, 57 + BitLen(d) - BitLen(n))
             q == BDiv(BShl(n, k), d)
             e == s + k
         IN IF e < 0 THEN RoundF(neg, BShl(q[1], -e), 0, q[2] # <<>>) ELSE RoundF(neg, q[1], e, q[2] # <<>>)

FNeg(a) == IF IsNaN(a) THEN a ELSE <<"flt", a[2], ~a[3], a[4], a[5]>>
Align(a, s) == BShl(a[4], s - a[5])
FAdd(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a[3] # b[3] THEN NaN ELSE a)
    ELSE IF IsInf(b) THEN b
    ELSE LET s == Max2(a[5], b[5]) x == Align(a, s) y == Align(b, s) IN
         IF a[3] = b[3] THEN RoundF(a[3], BAdd(x, y), s, FALSE)
         ELSE IF BCmp(x, y) = 0 THEN FZero(FALSE)
         ELSE IF BCmp(x, y) > 0 THEN RoundF(a[3], BSub(x, y), s, FALSE)
         ELSE RoundF(b[3], BSub(y, x), s, FALSE)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF IsInf(a) \/ IsInf(b) THEN (IF IsZeroF(a) \/ IsZeroF(b) THEN NaN ELSE Inf(a[3] # b[3]))
    ELSE RoundF(a[3] # b[3], BMul(a[4], b[4]), a[5] + b[5], FALSE)
FDiv(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) \/ (IsInf(a) /\ IsInf(b)) \/ (IsZeroF(a) /\ IsZeroF(b)) THEN NaN
    ELSE IF IsInf(a) \/ IsZeroF(b) THEN Inf(a[3] # b[3])
    ELSE IF IsInf(b) THEN FZero(a[3] # b[3])
    ELSE RatioF(a[3] # b[3], a[4], b[4], a[5] - b[5])
FRem(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) \/ IsInf(a) \/ IsZeroF(b) THEN NaN
    ELSE IF IsInf(b) \/ IsZeroF(a) THEN a
    ELSE LET s == Max2(a[5], b[5]) IN RoundF(a[3], BDiv(Align(a, s), Align(b, s))[2], s, FALSE)
(* -1, 0, 1, or 2 if unordered *)
FCmp(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN 2
    ELSE IF IsZeroF(a) /\ IsZeroF(b) THEN 0
    ELSE LET sa == IF IsZeroF(a) THEN 0 ELSE IF a[3] THEN -1 ELSE 1
             sb == IF IsZeroF(b) THEN 0 ELSE IF b[3] THEN -1 ELSE 1
             s == Max2(a[5], b[5])
             c == IF IsInf(a) THEN (IF IsInf(b) THEN 0 ELSE 1)
                  ELSE IF IsInf(b) THEN -1
                  ELSE BCmp(Align(a, s), Align(b, s))
         IN IF sa # sb THEN (IF sa < sb THEN -1 ELSE 1) ELSE sa * c

(* a decimal numeral d.f (texts of digits) *)
FOfDecimal(neg, d, f) ==
    IF f = <<>> THEN RoundF(neg, BOfDigits(d), 0, FALSE)
    ELSE RatioF(neg, BOfDigits(d \o f), Pow10(Len(f)), 0)
(* "digits[.digits]" -> number; every text of digits and dots with exactly one dot is a numeral *)
DotCount(t) == FoldLeft(LAMBDA a, c : IF c = 46 THEN a + 1 ELSE a, 0, t)
FOfText(neg, t) == LET d == Find(t, 1, 46) IN FOfDecimal(neg, SubSeq(t, 1, d - 1), SubSeq(t, d + 1, Len(t)))

(* The displayed text of a float: the shortest decimal numeral that reads back as it, of  *)
(* the shortest ones the nearest (the upper one at equal distance), without an exponent.  *)
RECURSIVE StripZeros(_)
StripZeros(t) == IF t # <<>> /\ t[Len(t)] = 48 THEN StripZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t
(* The numerals that read back as m / 2^s lie between the halves of the way to its neighbours (these belong to it *)
(* if its mantissa is even): everything is counted in units of 10^-s1, in which all three are whole numbers.       *)
DigitsCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                   ELSE LET q == SelectInSeq([i \in 1..Len(a) |-> a[i] # b[i]], LAMBDA x : x)
                        IN IF q = 0 THEN 0 ELSE IF a[q] < b[q] THEN -1 ELSE 1
Around(m, s) ==
    LET E == Max2(BitLen(m) - s - 53, -1074)                    \* the last place of the mantissa is worth 2^E
        s1 == Max2(s, 2 - E)
        N == TLCEval(TimesPow5(BShl(m, s1 - s), s1))
        up == TLCEval(TimesPow5(BShl(One, s1 + E - 1), s1))
        edge == E > -1074 /\ LowZero(m, BitLen(m) - 1)          \* a power of two: its lower neighbour is nearer
        down == IF edge THEN BShr(up, 1) ELSE up
    IN [even |-> -s - E > 0 \/ Bit(m, s + E) = 0, at |-> BDigits(N), lo |-> BDigits(BSub(N, down)), hi |-> BDigits(BAdd(N, up)), s |-> s1]
RECURSIVE ShortFrom(_, _)
ShortFrom(r, n) ==
    LET more == Len(r.at) - n
        fits(c) == LET t == c \o [i \in 1..more |-> 48]
                       l == DigitsCmp(r.lo, t) h == DigitsCmp(t, r.hi)
                   IN (l < 0 \/ (l = 0 /\ r.even)) /\ (h < 0 \/ (h = 0 /\ r.even))
        lo == SubSeq(r.at, 1, n)
        hi == BDigits(BAdd(BOfDigits(lo), One))
        pt == Len(r.at) - r.s
    IN IF more <= 0 THEN <<StripZeros(r.at), pt>>
       ELSE IF fits(hi) /\ (r.at[n + 1] >= 53 \/ ~fits(lo)) THEN <<StripZeros(hi), pt + Len(hi) - n>>
       ELSE IF fits(lo) THEN <<StripZeros(lo), pt>>
       ELSE ShortFrom(r, n + 1)
(* <<digits, pt>> of a finite float other than 0: 0.d1d2.. * 10^pt *)
Shortest(a) == ShortFrom(TLCEval(Around(a[4], a[5])), 1)
Zeros(n) == [i \in 1..n |-> 48]
PlainNumeral(d, pt) == IF pt <= 0 THEN <<48, 46>> \o Zeros(-pt) \o d
                       ELSE IF pt >= Len(d) THEN d \o Zeros(pt - Len(d))
                       ELSE SubSeq(d, 1, pt) \o <<46>> \o SubSeq(d, pt + 1, Len(d))
FSign(a) == IF a[3] THEN <<45>> ELSE <<>>
FText(a) == IF IsNaN(a) THEN S("NaN")
            ELSE FSign(a) \o (IF IsInf(a) THEN S("inf")
                              ELSE IF IsZeroF(a) THEN <<48>>
                              ELSE LET q == Shortest(a) IN PlainNumeral(q[1], q[2]))
(* the text within arrays and maps: always with a point, or with an exponent if very large or small *)
FDebug(a) == IF IsNaN(a) \/ IsInf(a) THEN FText(a)
             ELSE IF IsZeroF(a) THEN FSign(a) \o S("0.0")
             ELSE LET q == Shortest(a) d == q[1] pt == q[2]
                  IN FSign(a) \o (IF pt >= 17 \/ pt <= -4
                                  THEN <<d[1]>> \o (IF Len(d) = 1 THEN <<>> ELSE <<46>> \o Tail(d)) \o <<101>>
                                       \o IntText(IntOf(pt - 1))
                                  ELSE PlainNumeral(d, pt) \o (IF pt >= Len(d) THEN S(".0") ELSE <<>>))

(* does the text from p on start with a numeral of this float? end position, or 0. *)
(* Any numeral that denotes exactly this double is accepted.                        *)
IsNumChar(c) == IsDigit(c) \/ c = 46
ExpOf(t) == FoldLeft(LAMBDA a, c : IF IsDigit(c) THEN 10 * a + (c - 48) ELSE a, 0, t)
MatchFloat(a, t, p, debug) ==
    IF IsNaN(a) THEN (IF StartsAt(t, p, S("NaN")) THEN p + 3 ELSE 0)
    ELSE LET b == IF a[3] THEN p + 1 ELSE p
             e == RunEnd(t, b, IsNumChar)
             num == SubSeq(t, b, e - 1)
             isExp == debug /\ e <= Len(t) /\ t[e] = 101
             eneg == isExp /\ e + 1 <= Len(t) /\ t[e + 1] = 45
             e1 == IF isExp THEN RunEnd(t, IF eneg THEN e + 2 ELSE e + 1, IsDigit) ELSE e
             ex == IF isExp THEN ExpOf(SubSeq(t, e + 1, e1 - 1)) ELSE 0
             d == Find(num, 1, 46)
             int == SubSeq(num, 1, d - 1)
             frac == SubSeq(num, d + 1, Len(num))
             all == int \o frac
             val == IF isExp THEN (IF eneg THEN RatioF(a[3], BOfDigits(all), Pow10(Len(frac) + ex), 0)
                                   ELSE RatioF(a[3], BMul(BOfDigits(all), Pow10(ex)), Pow10(Len(frac)), 0))
                    ELSE FOfDecimal(a[3], int, frac)
         IN IF a[3] /\ ~(p <= Len(t) /\ t[p] = 45) THEN 0
            ELSE IF IsInf(a) THEN (IF StartsAt(t, b, S("inf")) THEN b + 3 ELSE 0)
            ELSE IF int = <<>> \/ DotCount(num) > 1 \/ Len(num) > 340 THEN 0
            ELSE IF debug /\ ~isExp /\ d > Len(num) THEN 0
            ELSE IF val = a THEN e1 ELSE 0
===========================================================================

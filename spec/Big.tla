-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: little-endian sequences of bytes without    *)
(* leading zeros (TLC's own integers have 32 bits).                         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

RECURSIVE BTrim(_)
BTrim(b) == IF b = <<>> THEN b ELSE IF b[Len(b)] = 0 THEN BTrim(SubSeq(b, 1, Len(b) - 1)) ELSE b
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BNat(n \div 256)
Small(b) == Len(b) <= 3
ToNat(b) == IF b = <<>> THEN 0
            ELSE b[1] + (IF Len(b) > 1 THEN 256 * b[2] ELSE 0) + (IF Len(b) > 2 THEN 65536 * b[3] ELSE 0)
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpFrom(a, b, Len(a))

RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET s == At(a, i) + At(b, i) + c IN <<s % 256>> \o BAddC(a, b, i + 1, s \div 256)
BAdd(a, b) == IF Small(a) /\ Small(b) THEN BNat(ToNat(a) + ToNat(b)) ELSE BAddC(a, b, 1, 0)

RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, i, c) == IF i > Len(a) THEN <<>>
                     ELSE LET s == a[i] - At(b, i) - c
                          IN <<IF s < 0 THEN s + 256 ELSE s>> \o BSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
(* a >= b *)
BSub(a, b) == IF Small(a) THEN BNat(ToNat(a) - ToNat(b)) ELSE BTrim(BSubC(a, b, 1, 0))

(* times a small natural n <= 1000000 *)
RECURSIVE BMulSC(_, _, _, _)
BMulSC(a, n, i, c) == IF i > Len(a) THEN BNat(c)
                      ELSE LET s == a[i] * n + c IN <<s % 256>> \o BMulSC(a, n, i + 1, s \div 256)
BMulS(a, n) == IF n = 0 THEN <<>> ELSE BTrim(BMulSC(a, n, 1, 0))
Shift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE BAdd(Shift(BMulS(a, b[i]), i - 1), BMulFrom(a, b, i + 1))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE IF Len(a) + Len(b) <= 3 THEN BNat(ToNat(a) * ToNat(b))
              ELSE BMulFrom(a, b, 1)

(* division by a small natural n <= 1000000: <<quotient, rest>> *)
RECURSIVE BDivSC(_, _, _, _)
BDivSC(a, n, i, r) == IF i = 0 THEN <<<<>>, r>>
                      ELSE LET s == r * 256 + a[i]
                               q == BDivSC(a, n, i - 1, s % n)
                           IN <<q[1] \o <<s \div n>>, q[2]>>
BDivS(a, n) == LET q == BDivSC(a, n, Len(a), 0) IN <<BTrim(q[1]), q[2]>>

(* the largest digit q in lo..hi with q * b <= r *)
RECURSIVE BDigit(_, _, _, _)
BDigit(r, b, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN IF BCmp(BMulS(b, m), r) <= 0 THEN BDigit(r, b, m, hi) ELSE BDigit(r, b, lo, m - 1)
RECURSIVE BDivFrom(_, _, _, _)
BDivFrom(a, b, i, r) ==
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET s == BTrim(<<a[i]>> \o r)
             k == Len(b) - 2                                   \* the leading bytes tell the digit up to 2
             st == At(s, k + 1) + 256 * At(s, k + 2) + 65536 * At(s, k + 3)
             bt == At(b, k + 1) + 256 * At(b, k + 2)
             hi == (st + 1) \div bt
             d == BDigit(s, b, st \div (bt + 1), IF hi > 255 THEN 255 ELSE hi)
             t == IF d = 0 THEN s ELSE BSub(s, BMulS(b, d))
             q == BDivFrom(a, b, i - 1, t)
         IN <<q[1] \o <<d>>, q[2]>>
(* <<quotient, rest>>, b # 0 *)
BDiv(a, b) == IF Small(a) /\ Small(b) THEN <<BNat(ToNat(a) \div ToNat(b)), BNat(ToNat(a) % ToNat(b))>>
              ELSE IF BCmp(a, b) < 0 THEN <<<<>>, a>>
              ELSE IF Len(b) = 1 THEN LET q == BDivS(a, b[1]) IN <<q[1], BNat(q[2])>>
              ELSE LET q == BDivFrom(a, b, Len(a), <<>>) IN <<BTrim(q[1]), q[2]>>

Pow2s(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>[k + 1]
BShl(a, k) == IF a = <<>> \/ k = 0 THEN a ELSE Shift(BMulS(a, Pow2s(k % 8)), k \div 8)
BShr(a, k) == IF k \div 8 >= Len(a) THEN <<>>
              ELSE BDivS(SubSeq(a, k \div 8 + 1, Len(a)), Pow2s(k % 8))[1]
ByteBits(x) == IF x = 0 THEN 0 ELSE IF x < 2 THEN 1 ELSE IF x < 4 THEN 2 ELSE IF x < 8 THEN 3 ELSE IF x < 16 THEN 4
               ELSE IF x < 32 THEN 5 ELSE IF x < 64 THEN 6 ELSE IF x < 128 THEN 7 ELSE 8
BitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + ByteBits(a[Len(a)])
Bit(a, k) == (At(a, k \div 8 + 1) \div Pow2s(k % 8)) % 2          \* bit k, counted from 0
LowZero(a, k) == /\ \A i \in 1..(k \div 8) : At(a, i) = 0           \* the k low bits are zero
                 /\ At(a, k \div 8 + 1) % Pow2s(k % 8) = 0
One == <<1>>
RECURSIVE PowOf(_, _, _, _)
PowOf(x, a, n, k) == IF n >= k THEN PowOf(TLCEval(BMulS(x, a^k)), a, n - k, k) ELSE BMulS(x, a^n)
Pow10(n) == PowOf(One, 10, n, 6)
TimesPow5(x, n) == PowOf(x, 5, n, 8)

(* decimal digits -> number, number -> decimal digits (as code points) *)
SmallOf(t) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, t)
RECURSIVE BOfDigits(_)
BOfDigits(t) ==
    IF Len(t) <= 6 THEN BNat(SmallOf(t))
    ELSE BAdd(BMulS(BOfDigits(SubSeq(t, 1, Len(t) - 6)), 1000000), BNat(SmallOf(SubSeq(t, Len(t) - 5, Len(t)))))
RECURSIVE SmallDigits(_)
SmallDigits(n) == IF n < 10 THEN <<48 + n>> ELSE SmallDigits(n \div 10) \o <<48 + (n % 10)>>
SixDigits(n) == [i \in 1..6 |-> 48 + ((n \div (10 ^ (6 - i))) % 10)]
RECURSIVE BDigits(_)
BDigits(a) == IF Small(a) THEN SmallDigits(ToNat(a))
              ELSE LET q == TLCEval(BDivS(a, 1000000)) IN IF q[1] = <<>> THEN SmallDigits(q[2]) ELSE BDigits(q[1]) \o SixDigits(q[2])
===========================================================================

------------------------------- MODULE Text -------------------------------
(* Texts are sequences of Unicode code points. S("abc") is the text of a    *)
(* TLA+ string of printable ASCII characters.                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..95} |->
                      31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c])
S(str) == TLCEval([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])

LF == 10
CR == 13

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsIdentStart(c) == IsAlpha(c) \/ c = 95
IsIdentPart(c) == IsIdentStart(c) \/ IsDigit(c)
(* Unicode White_Space *)
IsSpace(c) == \/ (c >= 9 /\ c <= 13) \/ c = 32
              \/ (c > 127 /\ (c = 133 \/ c = 160 \/ c = 5760 \/ (c >= 8192 /\ c <= 8202)
                              \/ c = 8232 \/ c = 8233 \/ c = 8239 \/ c = 8287 \/ c = 12288))
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
LowerText(t) == TLCEval([i \in 1..Len(t) |-> ToLower(t[i])])

Utf8Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf8Len(t) == FoldLeft(LAMBDA a, c : a + Utf8Width(c), 0, t)
Utf8One(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8Range(_, _, _)
Utf8Range(t, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN Utf8One(t[a])
                      ELSE LET m == (a + b) \div 2 IN Utf8Range(t, a, m) \o Utf8Range(t, m + 1, b)
Utf8(t) == IF \A i \in 1..Len(t) : t[i] < 128 THEN t ELSE Utf8Range(t, 1, Len(t))

(* the first i in p..n with P(i), n + 1 if there is none (p if p > n) *)
First(p, n, P(_)) == IF p > n THEN p
                     ELSE CHOOSE i \in p..(n + 1) : (IF i > n THEN TRUE ELSE P(i)) /\ \A j \in p..(i - 1) : ~P(j)
(* the longest run of characters satisfying P from position p: first position after it *)
RunEnd(t, p, P(_)) == First(p, Len(t), LAMBDA i : ~P(t[i]))
(* first position >= p holding character c, or Len(t)+1 *)
Find(t, p, c) == First(p, Len(t), LAMBDA i : t[i] = c)

StartsAt(t, p, u) == /\ p + Len(u) - 1 <= Len(t)
                     /\ \A i \in 1..Len(u) : t[p + i - 1] = u[i]
IsPrefixText(u, t) == StartsAt(t, 1, u)
EndsWith(t, u) == Len(u) <= Len(t) /\ StartsAt(t, Len(t) - Len(u) + 1, u)

TrimL(t) == SubSeq(t, RunEnd(t, 1, IsSpace), Len(t))
TrimR(t) == SubSeq(t, 1, Len(t) + 1 - First(1, Len(t), LAMBDA i : ~IsSpace(t[Len(t) + 1 - i])))
Trim(t) == TrimR(TrimL(t))

(* lines of a text: separated by LF, a CR before the LF is dropped, no empty last line *)
DropCR(l) == IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Lines(t) ==
    LET nl == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = LF)
        n == Len(nl)
        m == IF t = <<>> THEN 0 ELSE IF t[Len(t)] = LF THEN n ELSE n + 1
    IN TLCEval([k \in 1..m |-> LET a == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
                               IN IF k <= n THEN DropCR(SubSeq(t, a, nl[k] - 1)) ELSE SubSeq(t, a, Len(t))])

(* maximal runs of non-space characters *)
RECURSIVE WordsFrom(_, _)
WordsFrom(t, p) ==
    LET b == RunEnd(t, p, IsSpace)
        e == RunEnd(t, b, LAMBDA c : ~IsSpace(c))
    IN IF b > Len(t) THEN <<>> ELSE <<SubSeq(t, b, e - 1)>> \o WordsFrom(t, e)
Words(t) == WordsFrom(t, 1)

(* the texts a to b one after the other, by halves *)
RECURSIVE JoinRange(_, _, _, _)
JoinRange(ts, a, b, sep) == IF a = b THEN ts[a]
                            ELSE LET m == (a + b) \div 2 IN JoinRange(ts, a, m, sep) \o sep \o JoinRange(ts, m + 1, b, sep)
JoinText(ts, sep) == IF ts = <<>> THEN <<>> ELSE JoinRange(ts, 1, Len(ts), sep)

(* lexicographic order on texts (code points order as UTF-8 bytes do) *)
TextCmp(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                     i == First(1, n, LAMBDA k : a[k] # b[k])
                 IN IF i > n THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
                    ELSE IF a[i] < b[i] THEN -1 ELSE 1

NatText(n) == S(ToString(n))
===========================================================================

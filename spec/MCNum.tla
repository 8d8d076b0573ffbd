------------------------------- MODULE MCNum -------------------------------
(* Laws of the arithmetic of Num on all pairs of boundary integers and       *)
(* agreement with TLC's own arithmetic on small ones.                        *)
EXTENDS Num
VARIABLES numA, numB, seen
Bounds == {I(n, m) : n \in BOOLEAN, m \in {<<>>, <<1>>, <<2>>, <<3>>, <<7>>, <<63>>, <<64>>, <<255>>, <<0, 1>>, <<255, 255>>, <<0, 0, 1>>,
              <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0, 1>>, <<5, 0, 0, 0, 0, 1>>,
              <<255, 255, 255, 255, 255, 255, 31>>, <<0, 0, 0, 0, 0, 0, 32>>, <<1, 0, 0, 0, 0, 0, 32>>, <<0, 0, 0, 0, 0, 0, 0, 64>>,
              <<254, 255, 255, 255, 255, 255, 255, 127>>, Max63}} \cup {I(TRUE, Pow63)}
Little == -20..20
Init == /\ seen = FALSE
        /\ \/ numA \in Bounds /\ numB \in Bounds
           \/ \E i \in Little, j \in Little : numA = IntOf(i) /\ numB = IntOf(j)
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<numA, numB>>
Abs1(x) == IF x < 0 THEN -x ELSE x
V(x) == IF x[2] THEN -ToNat(x[3]) ELSE ToNat(x[3])
IsLittle(x) == Len(x[3]) <= 1
TruncDiv(x, y) == LET q == Abs1(x) \div Abs1(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
Laws == seen =>
    /\ ISub(IAdd(numA, numB), numB) = numA
    /\ IAdd(numA, numB) = IAdd(numB, numA)
    /\ IMul(numA, numB) = IMul(numB, numA)
    /\ numB[3] # <<>> => LET q == IDiv(numA, numB) r == IRem(numA, numB) IN
          /\ IAdd(IMul(q, numB), r) = numA
          /\ BCmp(r[3], numB[3]) = -1
          /\ (r[3] # <<>> => r[2] = numA[2])
    /\ OfBits(Bits(numA)) = numA
    /\ INot(numA) = ISub(INeg(numA), IntOf(1))
    /\ IXor(numA, numB) = ISub(IOr(numA, numB), IAnd(numA, numB))
    /\ IAdd(IAnd(numA, numB), IOr(numA, numB)) = IAdd(numA, numB)
    /\ IsCount(numB) => LET k == ToNat(numB[3]) IN
          /\ ICmp(IMul(IShr(numA, k), I(FALSE, BShl(One, k))), numA) <= 0          \* floor
          /\ ICmp(IMul(IAdd(IShr(numA, k), IntOf(1)), I(FALSE, BShl(One, k))), numA) = 1
          /\ FitsI64(IMul(numA, I(FALSE, BShl(One, k)))) => IShl(numA, k) = IMul(numA, I(FALSE, BShl(One, k)))
    /\ BOfDigits(BDigits(numA[3])) = numA[3]
    /\ ICmp(numA, numB) = -ICmp(numB, numA)
    /\ LET f == FOfInt(numA) g == FOfInt(numB) IN
          /\ FCmp(f, g) \in {ICmp(numA, numB), 0}                                  \* rounding is monotone
          /\ FCmp(FAdd(f, g), FAdd(g, f)) = 0
          /\ FSub(f, f) = FZero(FALSE)
          /\ (numB[3] # <<>> /\ BitLen(numA[3]) <= 26 /\ BitLen(numB[3]) <= 26) => FCmp(FDiv(FMul(f, g), g), f) = 0
          /\ MatchFloat(f, FText(f), 1, FALSE) = Len(FText(f)) + 1
          /\ numB[3] # <<>> => LET h == FDiv(f, g) IN  MatchFloat(h, FText(h), 1, FALSE) = Len(FText(h)) + 1
    /\ (IsLittle(numA) /\ IsLittle(numB)) =>
          /\ IAdd(numA, numB) = IntOf(V(numA) + V(numB))
          /\ IMul(numA, numB) = IntOf(V(numA) * V(numB))
          /\ numB[3] # <<>> => IDiv(numA, numB) = IntOf(TruncDiv(V(numA), V(numB)))
===========================================================================

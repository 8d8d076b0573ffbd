----------------------------- MODULE MCGrammar -----------------------------
(* The grammar of Lang reads back every tree from its rendering with the     *)
(* fewest parentheses (by level and left association), in every layout: all  *)
(* trees of up to three binary operators, with prefixes and postfixes at the *)
(* leaves.  One operator per level (Ops) or all 18 (two-operator trees).     *)
EXTENDS Lang

VARIABLES tree, layout, seen
Ops == {"||", "&&", "|", "^", "&", "==", "<", "<<", "+", "*"}
AllOps == {BinOps[i] : i \in 1..Len(BinOps)}
Leaf(n) == <<"lit", IntOf(n)>>
Leaves == {Leaf(1), <<"un", "-", Leaf(2)>>, <<"un", "!", <<"id", S("x")>>>>, <<"call", S("f"), <<Leaf(3)>>>>,
           <<"un", "-", <<"idx", <<"id", S("a")>>, Leaf(0)>>>>, <<"fld", <<"id", S("m")>>, S("k")>>,
           <<"un", "!", <<"un", "-", Leaf(4)>>>>}
B(o, l, r) == <<"bin", o, l, r>>
Trees3 == LET A == Leaf(7) IN
          {B(o, B(p, B(q, A, A), A), A) : o \in Ops, p \in Ops, q \in Ops}
          \cup {B(o, B(p, A, B(q, A, A)), A) : o \in Ops, p \in Ops, q \in Ops}
          \cup {B(o, B(p, A, A), B(q, A, A)) : o \in Ops, p \in Ops, q \in Ops}
          \cup {B(o, A, B(p, B(q, A, A), A)) : o \in Ops, p \in Ops, q \in Ops}
          \cup {B(o, A, B(p, A, B(q, A, A))) : o \in Ops, p \in Ops, q \in Ops}
Trees2 == {B(o, B(p, x, Leaf(7)), Leaf(8)) : o \in AllOps, p \in AllOps, x \in Leaves}
          \cup {B(o, Leaf(7), B(p, Leaf(8), x)) : o \in AllOps, p \in AllOps, x \in Leaves}
          \cup {<<"un", u, B(o, x, Leaf(9))>> : u \in {"-", "!"}, o \in AllOps, x \in Leaves}
LevelOf(e) == IF e[1] = "bin" THEN Level(e[2]) ELSE IF e[1] = "un" THEN 11 ELSE 12
(* token texts of e, in parentheses if it binds looser than need *)
RECURSIVE Toks(_, _)
Toks(e, need) ==
    LET t == CASE e[1] = "bin" -> Toks(e[3], Level(e[2])) \o <<S(e[2])>> \o Toks(e[4], Level(e[2]) + 1)
               [] e[1] = "un" -> <<S(e[2])>> \o Toks(e[3], 11)
               [] e[1] = "lit" -> <<IntText(e[2])>>
               [] e[1] = "id" -> <<e[2]>>
               [] e[1] = "call" -> <<e[2], <<40>>>> \o Toks(e[3][1], 1) \o <<<<41>>>>
               [] e[1] = "idx" -> Toks(e[2], 12) \o <<<<91>>>> \o Toks(e[3], 1) \o <<<<93>>>>
               [] e[1] = "fld" -> Toks(e[2], 12) \o <<<<46>>, e[3]>>
    IN IF LevelOf(e) < need THEN <<<<40>>>> \o t \o <<<<41>>>> ELSE t
RECURSIVE Strip(_)
Strip(e) == CASE e[1] = "par" -> Strip(e[2])
              [] e[1] = "bin" -> B(e[2], Strip(e[3]), Strip(e[4]))
              [] e[1] = "un" -> <<"un", e[2], Strip(e[3])>>
              [] e[1] = "idx" -> <<"idx", Strip(e[2]), Strip(e[3])>>
              [] e[1] = "fld" -> <<"fld", Strip(e[2]), e[3]>>
              [] OTHER -> e
Separator(n) == CASE n = "tight" -> <<>> [] n = "space" -> <<32>> [] n = "lines" -> <<10, 9>>
Init == /\ tree \in Trees3 \cup Trees2 /\ layout \in {"tight", "space", "lines"} /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<tree, layout>>
ReadsBack == seen => LET p == Parse(JoinText(Toks(tree, 1), Separator(layout)) \o (IF layout = "lines" THEN <<59>> ELSE <<>>))
             IN p.ok /\ Len(p.exprs) = 1 /\ Strip(p.exprs[1]) = tree
(* the fully parenthesised text has the same value as the bare one *)
===========================================================================

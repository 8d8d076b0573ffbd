----------------------------- MODULE MCLoader -----------------------------
(* All trees of two levels over a few names: the order of reading does not  *)
(* depend on the order of listing, every source file is read once, nothing  *)
(* else is, and the files of a directory stand together.                    *)
EXTENDS Loader
VARIABLES tree, seen
Names == {S("a.fan"), S("B.fan"), S("a"), S("a-b.fan"), S(".fan"), S("x.FAN"), S("a.fan.old")}
File(n, k) == [name |-> n, dir |-> FALSE, text |-> k, entries |-> <<>>]
Dir(n, es) == [name |-> n, dir |-> TRUE, text |-> <<>>, entries |-> es]
Lists(n) == {q \in [1..n -> Names] : Cardinality({q[i] : i \in 1..n}) = n}
SubNames == {S("a.fan"), S("b.fan"), S("c")}
Subs == {<<>>} \cup {<<a>> : a \in SubNames} \cup {<<a, b>> : a \in SubNames, b \in SubNames}
SubOk(q) == Len(q) < 2 \/ q[1] # q[2]
Inner(q, k) == [i \in 1..Len(q) |-> File(q[i], <<k, i>>)]
Init == /\ seen = FALSE
        /\ \E q \in Lists(3), d \in 0..3, sub \in {q \in Subs : SubOk(q)} :
              tree = Dir(<<>>, [i \in 1..3 |-> IF i = d THEN Dir(q[i], Inner(sub, i)) ELSE File(q[i], <<i>>)])
Next == ~seen /\ seen' = TRUE /\ UNCHANGED tree
Perms == {p \in [1..3 -> 1..3] : Cardinality({p[i] : i \in 1..3}) = 3}
Sources(es) == {es[i] : i \in {j \in 1..Len(es) : IsSource(es[j])}}
Every == seen => LET fs == FilesIn(tree)
                     all == UNION ({Sources(tree.entries)} \cup {Sources(tree.entries[i].entries) : i \in 1..3})
                 IN {fs[i] : i \in 1..Len(fs)} = all /\ Len(fs) = Cardinality(all)
OrderFree == seen => \A p \in Perms : SourceOf([tree EXCEPT !.entries = [i \in 1..3 |-> tree.entries[p[i]]]]) = SourceOf(tree)
Together == seen => \A i \in 1..3 : tree.entries[i].dir =>
    LET fs == FilesIn(tree)
        at == {j \in 1..Len(fs) : fs[j].text[1] = i}
    IN \A j \in 1..Len(fs) : (\E a, b \in at : a < j /\ j < b) => j \in at
===========================================================================

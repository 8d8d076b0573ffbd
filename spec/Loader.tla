------------------------------ MODULE Loader ------------------------------
(* Which text a path stands for.  A tree is [name: bytes, dir: BOOLEAN,     *)
(* text, entries: seq of trees] (entries in whatever order the system lists *)
(* them).  Names are compared byte by byte.                                 *)
EXTENDS Text

RECURSIVE NameLess(_, _, _)
NameLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE NameLess(a, b, i + 1)
Ordered(es) == SortSeq(es, LAMBDA x, y : NameLess(x.name, y.name, 1))
(* the extension of a name: what follows its last dot, unless that is its first character *)
RECURSIVE LastDot(_, _)
LastDot(n, i) == IF i = 0 THEN 0 ELSE IF n[i] = 46 THEN i ELSE LastDot(n, i - 1)
Extension(n) == LET d == LastDot(n, Len(n)) IN IF d <= 1 \/ n = <<46, 46>> THEN <<>> ELSE SubSeq(n, d + 1, Len(n))
SFan == S("fan")
IsSource(x) == ~x.dir /\ Extension(x.name) = SFan
(* the files of a tree in the order they are read *)
RECURSIVE FilesIn(_)
FilesIn(x) == IF x.dir THEN FoldLeft(LAMBDA a, y : a \o FilesIn(y), <<>>, Ordered(x.entries))
              ELSE IF IsSource(x) THEN <<x>> ELSE <<>>
(* file ends separate tokens *)
SourceOf(x) == FoldLeft(LAMBDA a, f : a \o f.text \o <<LF>>, <<>>, FilesIn(x))
===========================================================================

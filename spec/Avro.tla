------------------------------- MODULE Avro -------------------------------
(* Avro object container files, decoded by the schema they declare.         *)
(* The schema is JSON and read with the language's own grammar.             *)
(* Data: <<"int", neg, mag>> for int and long, <<"str", bytes>>,            *)
(* <<"bool", b>>, <<"arr", seq>>, <<"rec", function from names to data>>.   *)
(* Decoders yield <<datum, next position>>, or <<>> if the bytes are not    *)
(* of the schema.                                                           *)
EXTENDS Lang
SchemaValue(t) == LET p == Parse(t) IN IF ~p.ok \/ Len(p.exprs) # 1 THEN Null ELSE Data(p.exprs[1])

(* the same schema is not read twice: register 1 keeps those read so far *)
ASSUME TLCSet(1, <<>>)
SchemaOf(t) == LET c == TLCGet(1) IN
               IF t \in DOMAIN c THEN c[t]
               ELSE LET v == SchemaValue(t) IN IF TLCSet(1, (t :> v) @@ c) THEN v ELSE Null

RECURSIVE VarEnd(_, _), VarMag(_, _, _, _)
VarEnd(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] < 128 THEN p ELSE VarEnd(b, p + 1)
VarMag(b, p, e, acc) == IF e < p THEN acc ELSE VarMag(b, p, e - 1, BAdd(BMulS(acc, 128), BNat(b[e] % 128)))
LongAt(b, p) ==
    LET e == VarEnd(b, p)
    IN IF e = 0 \/ e - p > 9 THEN <<>>
       ELSE IF e - p < 3
       THEN LET z == (b[p] % 128) + (IF e > p THEN 128 * (b[p + 1] % 128) ELSE 0) + (IF e > p + 1 THEN 16384 * (b[p + 2] % 128) ELSE 0)
            IN <<IntOf(IF z % 2 = 0 THEN z \div 2 ELSE -((z + 1) \div 2)), e + 1>>
       ELSE LET m == VarMag(b, p, e, <<>>)
                h == BShr(m, 1)
            IN IF Bit(m, 0) = 0 THEN <<I(FALSE, h), e + 1>> ELSE <<I(TRUE, BAdd(h, <<1>>)), e + 1>>
(* a length: a small natural number, -1 if there is none *)
NatAt(b, p) == LET l == LongAt(b, p) IN IF l = <<>> THEN <<-1, p>>
                                       ELSE IF l[1][2] \/ ~Small(l[1][3]) THEN <<-1, l[2]>> ELSE <<ToNat(l[1][3]), l[2]>>
BytesAt(b, p) == LET n == NatAt(b, p) IN
                 IF n[1] < 0 \/ n[2] + n[1] - 1 > Len(b) THEN <<>> ELSE <<<<"str", SubSeq(b, n[2], n[2] + n[1] - 1)>>, n[2] + n[1]>>

SName == S("name") SType == S("type") SFields == S("fields") SItems == S("items") SRecord == S("record") SArr == S("array")
SLong == S("long") SInt == S("int") SStr == S("string") SBytes == S("bytes") SBool == S("boolean")
Get(m, k) == IF m[1] = "map" /\ k \in DOMAIN m[2] THEN m[2][k] ELSE Null
RECURSIVE DatumAt(_, _, _), FieldsAt(_, _, _, _, _), ItemsAt(_, _, _, _), ItemBlock(_, _, _, _, _)
DatumAt(sch, b, p) ==
    LET kind == IF sch[1] = "str" THEN sch[2] ELSE IF Get(sch, SType)[1] = "str" THEN Get(sch, SType)[2] ELSE <<>>
    IN CASE kind \in {SLong, SInt} -> LongAt(b, p)
         [] kind \in {SStr, SBytes} -> BytesAt(b, p)
         [] kind = SBool -> IF p <= Len(b) /\ b[p] \in {0, 1} THEN <<<<"bool", b[p] = 1>>, p + 1>> ELSE <<>>
         [] kind = SRecord -> FieldsAt(Get(sch, SFields)[2], 1, b, p, <<>>)
         [] kind = SArr -> ItemsAt(Get(sch, SItems), b, p, <<>>)
         [] kind = <<>> /\ sch[1] = "map" -> DatumAt(Get(sch, SType), b, p)
         [] OTHER -> <<>>
FieldsAt(fs, i, b, p, acc) ==
    IF i > Len(fs) THEN <<<<"rec", acc>>, p>>
    ELSE LET d == DatumAt(Get(fs[i], SType), b, p)
         IN IF d = <<>> THEN <<>> ELSE FieldsAt(fs, i + 1, b, d[2], (Get(fs[i], SName)[2] :> d[1]) @@ acc)
ItemsAt(sch, b, p, acc) ==
    LET n == LongAt(b, p)
        m == IF n = <<>> THEN <<>> ELSE IF n[1][2] THEN LongAt(b, n[2]) ELSE <<>>       \* a negative count is followed by a size
    IN IF n = <<>> THEN <<>>
       ELSE IF n[1][3] = <<>> THEN <<<<"arr", acc>>, n[2]>>
       ELSE IF ~Small(n[1][3]) THEN <<>>
       ELSE IF n[1][2] THEN (IF m = <<>> THEN <<>> ELSE ItemBlock(sch, b, m[2], ToNat(n[1][3]), acc))
       ELSE ItemBlock(sch, b, n[2], ToNat(n[1][3]), acc)
ItemBlock(sch, b, p, n, acc) ==
    IF n = 0 THEN ItemsAt(sch, b, p, acc)
    ELSE LET d == DatumAt(sch, b, p) IN IF d = <<>> THEN <<>> ELSE ItemBlock(sch, b, d[2], n - 1, Append(acc, d[1]))

(* header: magic, metadata, marker -> [ok, schema, codec, marker, next] *)
Magic == <<79, 98, 106, 1>>
SAvroSchema == S("avro.schema") SAvroCodec == S("avro.codec")
RECURSIVE MetaAt(_, _, _), MetaBlock(_, _, _, _)
MetaAt(b, p, acc) == LET n == NatAt(b, p) IN
                     IF n[1] < 0 THEN <<>> ELSE IF n[1] = 0 THEN <<acc, n[2]>> ELSE MetaBlock(b, n[2], n[1], acc)
MetaBlock(b, p, n, acc) ==
    IF n = 0 THEN MetaAt(b, p, acc)
    ELSE LET k == BytesAt(b, p) IN
         IF k = <<>> THEN <<>>
         ELSE LET v == BytesAt(b, k[2]) IN IF v = <<>> THEN <<>> ELSE MetaBlock(b, v[2], n - 1, (k[1][2] :> v[1][2]) @@ acc)
NoHeader == [ok |-> FALSE, schema |-> Null, marker |-> <<>>, next |-> 0]
Header(b) ==
    IF ~StartsAt(b, 1, Magic) THEN NoHeader
    ELSE LET m == MetaAt(b, 5, <<>>) IN
         IF m = <<>> THEN NoHeader
         ELSE IF SAvroSchema \notin DOMAIN m[1] \/ m[2] + 15 > Len(b) THEN NoHeader
         ELSE IF (IF SAvroCodec \in DOMAIN m[1] THEN m[1][SAvroCodec] # S("null") ELSE FALSE) THEN NoHeader
         ELSE LET t == m[1][SAvroSchema]
                  v == SchemaOf(t)
              IN IF v = Null THEN NoHeader
                 ELSE [ok |-> TRUE, schema |-> v, marker |-> SubSeq(b, m[2], m[2] + 15), next |-> m[2] + 16]
(* one block at p -> [ok, whole, recs, next]: whole is FALSE if the bytes end within it *)
NoBlock == [ok |-> FALSE, whole |-> FALSE, recs |-> <<>>, next |-> 0]
RECURSIVE RecordsAt(_, _, _, _, _)
RecordsAt(sch, b, p, n, acc) == IF n = 0 THEN <<acc, p>>
                                ELSE LET d == DatumAt(sch, b, p) IN IF d = <<>> THEN <<>> ELSE RecordsAt(sch, b, d[2], n - 1, Append(acc, d[1][2]))
BlockAt(h, b, p) ==
    LET n == NatAt(b, p)
        z == NatAt(b, n[2])
        data == z[2]
        e == z[2] + z[1]
        r == RecordsAt(h.schema, SubSeq(b, 1, e - 1), data, n[1], <<>>)
    IN IF VarEnd(b, p) = 0 THEN [NoBlock EXCEPT !.ok = TRUE]
       ELSE IF n[1] < 0 THEN NoBlock
       ELSE IF VarEnd(b, n[2]) = 0 THEN [NoBlock EXCEPT !.ok = TRUE]
       ELSE IF z[1] < 0 THEN NoBlock
       ELSE IF e + 15 > Len(b) THEN [NoBlock EXCEPT !.ok = TRUE]
       ELSE IF r = <<>> THEN NoBlock
       ELSE IF r[2] # e \/ SubSeq(b, e, e + 15) # h.marker THEN NoBlock
       ELSE [ok |-> TRUE, whole |-> TRUE, recs |-> r[1], next |-> e + 16]
(* all blocks from p on -> [ok, whole, blocks] *)
RECURSIVE BlocksAt(_, _, _, _)
BlocksAt(h, b, p, acc) ==
    IF p > Len(b) THEN [ok |-> TRUE, whole |-> TRUE, blocks |-> acc]
    ELSE LET k == BlockAt(h, b, p) IN
         IF ~k.ok \/ ~k.whole THEN [ok |-> k.ok, whole |-> FALSE, blocks |-> acc]
         ELSE BlocksAt(h, b, k.next, Append(acc, k.recs))
(* file -> [ok, whole, blocks]; a file cut off anywhere is ok but not whole *)
FileOf(b) == LET h == Header(b) IN
             IF h.ok THEN BlocksAt(h, b, h.next, <<>>) ELSE [ok |-> FALSE, whole |-> FALSE, blocks |-> <<>>]
===========================================================================

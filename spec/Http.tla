------------------------------- MODULE Http -------------------------------
(* Requests: from the text of a template (its placeholders already filled)  *)
(* to the bytes on the wire.  Responses: from the bytes received to the     *)
(* values the script sees.  Bytes are numbers 0..255.                       *)
EXTENDS Text

(* host names *)
Dot == 46
RECURSIVE LabelsFrom(_, _)
LabelsFrom(t, p) == LET e == Find(t, p, Dot) IN <<SubSeq(t, p, e - 1)>> \o (IF e > Len(t) THEN <<>> ELSE LabelsFrom(t, e + 1))
Labels(t) == LabelsFrom(LowerText(t), 1)
IsIp(t) == Len(Labels(t)) = 4 /\ \A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] = Dot
(* can a certificate name this host at all *)
NameChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 95}
CanBeNamed(t) ==
    IF IsIp(t) THEN TRUE
    ELSE LET ls == LabelsFrom(t, 1)
             n == IF Len(ls) > 1 /\ ls[Len(ls)] = <<>> THEN Len(ls) - 1 ELSE Len(ls)
         IN /\ Len(t) \in 1..253
            /\ \A i \in 1..n : /\ Len(ls[i]) \in 1..63 /\ (\A j \in 1..Len(ls[i]) : NameChar(ls[i][j]))
                              /\ ls[i][1] # 45 /\ ls[i][Len(ls[i])] # 45
            /\ \E j \in 1..Len(ls[n]) : ~IsDigit(ls[n][j])

CRLF == <<13, 10>>
Some(ws, i) == IF i <= Len(ws) THEN ws[i] ELSE <<>>

(* first position >= p where u starts in t, or 0 *)
FindText(t, p, u) == LET n == Len(t) - Len(u) + 1
                         i == First(p, n, LAMBDA k : StartsAt(t, k, u))
                     IN IF i > n THEN 0 ELSE i
FindAny(t, p, set) == First(p, Len(t), LAMBDA i : t[i] \in set)

(* bytes -> text; <<FALSE>> if they are not UTF-8 *)
Cont(b) == b >= 128 /\ b < 192
(* the character whose bytes begin at position p and end before position q, -1 if they are none *)
CharIn(b, p, q) ==
    LET c(i) == b[p + i] - 128
        v == CASE q = p + 1 -> IF b[p] < 128 THEN b[p] ELSE -1
               [] q = p + 2 -> IF b[p] \in 194..223 THEN (b[p] - 192) * 64 + c(1) ELSE -1
               [] q = p + 3 -> IF b[p] \in 224..239 THEN (b[p] - 224) * 4096 + c(1) * 64 + c(2) ELSE -1
               [] q = p + 4 -> IF b[p] \in 240..244 THEN (b[p] - 240) * 262144 + c(1) * 4096 + c(2) * 64 + c(3) ELSE -1
               [] OTHER -> -1
    IN IF q = p + 3 /\ (v < 2048 \/ v \in 55296..57343) THEN -1
       ELSE IF q = p + 4 /\ (v < 65536 \/ v > 1114111) THEN -1 ELSE v
DecodeAny(b) ==
    LET heads == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : ~Cont(b[i]))
        ends == Append(Tail(heads), Len(b) + 1)
        t == TLCEval([k \in 1..Len(heads) |-> CharIn(b, heads[k], ends[k])])
    IN IF Cont(b[1]) THEN <<FALSE>>
       ELSE IF \E k \in 1..Len(t) : t[k] < 0 THEN <<FALSE>> ELSE <<TRUE, t>>
Decode(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN <<TRUE, b>> ELSE DecodeAny(b)

---------------------------------------------------------------------------
(* decimal text -> number, -1 if it is none or too large *)
RECURSIVE NatFrom(_, _, _)
NatFrom(t, p, acc) == IF p > Len(t) THEN acc
                      ELSE IF ~IsDigit(t[p]) \/ acc > 100000 THEN -1 ELSE NatFrom(t, p + 1, acc * 10 + t[p] - 48)
Nat16(t) == LET d == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
                n == IF d = <<>> THEN -1 ELSE NatFrom(d, 1, 0)
            IN IF n > 65535 THEN -1 ELSE n

(* url ::= scheme "://" host [":" port] [path], a missing path is "/" *)
SHttps == S("https") SLocal == S("localhost") SSep == S("://")
Url(w) ==
    LET i == FindText(w, 1, SSep)
        https == (IF i = 0 THEN w ELSE SubSeq(w, 1, i - 1)) = SHttps
        rest == IF i = 0 THEN <<>> ELSE SubSeq(w, i + 3, Len(w))
        e == FindAny(rest, 1, {47, 63, 35})
        at == SubSeq(rest, 1, e - 1)
        k == Find(at, 1, 58)
        n == IF k > Len(at) THEN -1 ELSE Nat16(SubSeq(at, k + 1, Len(at)))
        tail == SubSeq(rest, e, Len(rest))
    IN [https |-> https,
        host |-> IF i = 0 THEN SLocal ELSE SubSeq(at, 1, k - 1),
        port |-> IF n >= 0 THEN n ELSE IF https THEN 443 ELSE 80,
        path |-> IF tail = <<>> THEN <<47>> ELSE IF tail[1] = 47 THEN tail ELSE <<47>> \o tail]
SHttpColon == S("http://") SHttpsColon == S("https://")
UrlText(u) == (IF u.https THEN SHttpsColon ELSE SHttpColon) \o u.host
              \o (IF u.port = (IF u.https THEN 443 ELSE 80) THEN <<>> ELSE <<58>> \o NatText(u.port)) \o u.path

Methods == {S("GET"), S("POST"), S("PUT"), S("PATCH"), S("DELETE"), S("OPTIONS"), S("HEAD"), S("TRACE"), S("CONNECT")}
Versions == {S("HTTP/1.1"), S("HTTP/0.9"), S("HTTP/1.0"), S("HTTP/2.0"), S("HTTP/3.0")}
SGet == S("GET") SHttp11 == S("HTTP/1.1") SHttpUrl == S("http://localhost/")
SForm == S("application/x-www-form-urlencoded") SMulti == S("multipart/form-data") SCType == S("content-type")

(* "name: value" -> <<name, value>>, <<>> if there is no colon *)
Pair(l) == LET t == Trim(l)
               i == Find(t, 1, 58)
           IN IF i > Len(t) THEN <<>> ELSE <<Trim(SubSeq(t, 1, i - 1)), Trim(SubSeq(t, i + 1, Len(t)))>>
Pairs(ls) == SelectSeq([i \in 1..Len(ls) |-> Pair(ls[i])], LAMBDA x : x # <<>>)
BlankLine(l) == \A i \in 1..Len(l) : IsSpace(l[i])
(* index of the first blank line from i on, or Len + 1 *)
FirstBlank(ls, i) == First(i, Len(ls), LAMBDA k : BlankLine(ls[k]))

(* the request a template describes *)
Request(msg) ==
    LET ls == Lines(Trim(msg))
        ws == IF ls = <<>> THEN <<>> ELSE Words(ls[1])
        n == FirstBlank(ls, 2)
        hs == Pairs(SubSeq(ls, 2, n - 1))
        body == SubSeq(ls, n + 1, Len(ls))
        cts == SelectSeq(hs, LAMBDA h : LowerText(h[1]) = SCType)
        kind == IF cts = <<>> THEN "raw" ELSE IF cts[1][2] = SForm THEN "form" ELSE IF cts[1][2] = SMulti THEN "multi" ELSE "raw"
    IN [method |-> IF Some(ws, 1) \in Methods THEN ws[1] ELSE SGet,
        url |-> IF Len(ws) < 2 THEN Url(SHttpUrl) ELSE Url(ws[2]),
        version |-> IF Some(ws, 3) \in Versions THEN ws[3] ELSE SHttp11,
        headers |-> hs, kind |-> kind,
        text |-> JoinText(body, <<10>>),
        fields |-> IF kind = "raw" THEN <<>> ELSE Pairs(body)]

(* application/x-www-form-urlencoded *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EncodeByte(b) == IF b < 128 /\ (IsAlpha(b) \/ IsDigit(b) \/ b \in {42, 45, 46, 95}) THEN <<b>>
                 ELSE IF b = 32 THEN <<43>> ELSE <<37, HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE EncodeRange(_, _, _)
EncodeRange(t, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN EncodeByte(t[a])
                        ELSE LET m == (a + b) \div 2 IN EncodeRange(t, a, m) \o EncodeRange(t, m + 1, b)
UrlEncode(t) == LET u == Utf8(t) IN EncodeRange(u, 1, Len(u))
FormBody(fs) == JoinText([i \in 1..Len(fs) |-> UrlEncode(fs[i][1]) \o <<61>> \o UrlEncode(fs[i][2])], <<38>>)

IsFile(f) == f[2] # <<>> /\ f[2][1] = 64
HeadBytes(q, hs) ==
    Utf8(q.method \o <<32>> \o q.url.path \o <<32>> \o q.version \o CRLF
         \o JoinText([i \in 1..Len(hs) |-> hs[i][1] \o <<58, 32>> \o hs[i][2] \o CRLF], <<>>) \o CRLF)
SBound == S("; boundary=")
CTypeAt(hs) == CHOOSE i \in 1..Len(hs) : LowerText(hs[i][1]) = SCType /\ \A j \in 1..(i - 1) : LowerText(hs[j][1]) # SCType
(* the headers as sent, given the boundary (<<>> if none is declared) *)
SentHeaders(q, b) == IF q.kind = "multi" /\ q.fields # <<>>
                     THEN [q.headers EXCEPT ![CTypeAt(q.headers)][2] = @ \o SBound \o b] ELSE q.headers
(* the boundary a multipart request declares on the wire, <<>> if none *)
WireBoundary(q, w) ==
    LET hs == q.headers
        i == CTypeAt(hs)
        upto == Len(HeadBytes(q, SubSeq(hs, 1, i))) - 2      \* up to the end of that header line
        p == upto - 1                                       \* where its CRLF would be
        e == Find(w, p, 13)
    IN IF StartsAt(w, p, SBound) THEN SubSeq(w, p + Len(SBound), e - 1) ELSE <<>>
SDisp == S("Content-Disposition: form-data; name=\"") SFileName == S("\"; filename=\"") SQuote == <<34>>
Opening(b) == CRLF \o <<45, 45>> \o b \o CRLF \o SDisp
(* position in w after u at p; 0 if it is not there *)
Past(w, p, u) == IF p > 0 /\ StartsAt(w, p, u) THEN p + Len(u) ELSE 0
RECURSIVE TextParts(_, _, _, _), FileParts(_, _, _, _, _)
TextParts(w, p, b, fs) ==
    IF p = 0 \/ fs = <<>> THEN p
    ELSE TextParts(w, Past(w, p, Opening(b) \o Utf8(fs[1][1]) \o SQuote \o CRLF \o CRLF \o Utf8(fs[1][2])), b, Tail(fs))
BaseName(t) == SubSeq(t, Len(t) + 2 - First(1, Len(t), LAMBDA i : t[Len(t) + 1 - i] = 47), Len(t))
(* files: path -> bytes.  left: the file fields not found yet, in any order *)
FileParts(w, p, b, left, files) ==
    IF p = 0 \/ left = {} THEN p
    ELSE LET after(f) ==
                 LET path == Tail(f[2])
                     h == Past(w, p, Opening(b) \o Utf8(f[1]) \o SFileName \o Utf8(BaseName(path)) \o SQuote \o CRLF)
                     e == IF h = 0 THEN 0 ELSE IF StartsAt(w, h, CRLF) THEN h ELSE FindText(w, h, CRLF \o CRLF)
                     c == IF e = 0 THEN 0 ELSE IF e = h THEN h + 2 ELSE e + 4
                 IN IF path \in DOMAIN files THEN Past(w, c, files[path]) ELSE 0
             hits == {x \in left : LET a == after(x[2]) IN a # 0 /\ FileParts(w, a, b, left \ {x}, files) # 0}
         IN IF hits = {} THEN 0
            ELSE LET x == CHOOSE x \in hits : TRUE IN FileParts(w, after(x[2]), b, left \ {x}, files)
(* are w exactly the bytes of the request? *)
WireOk(w, q, files) ==
    IF q.kind # "multi" \/ q.fields = <<>>
    THEN w = HeadBytes(q, q.headers) \o (IF q.kind = "form" THEN FormBody(q.fields)
                                         ELSE IF q.kind = "multi" \/ BlankLine(q.text) THEN <<>> ELSE Utf8(q.text))
    ELSE LET b == WireBoundary(q, w)
             p0 == Past(w, 1, HeadBytes(q, SentHeaders(q, b)))
             p1 == TextParts(w, p0, b, SelectSeq(q.fields, LAMBDA f : ~IsFile(f)))
             p2 == FileParts(w, p1, b, {<<i, q.fields[i]>> : i \in {j \in 1..Len(q.fields) : IsFile(q.fields[j])}}, files)
             p3 == Past(w, p2, CRLF \o <<45, 45>> \o b \o <<45, 45>>)
         IN b # <<>> /\ p3 = Len(w) + 1

---------------------------------------------------------------------------
(* the response in the bytes received up to an orderly close *)
NoResponse == [version |-> <<>>, status |-> 0, reason |-> <<>>, headers |-> <<>>, body |-> <<>>, error |-> TRUE]
Reason(l) == LET t == Trim(l)
                 a == RunEnd(t, 1, LAMBDA c : ~IsSpace(c))
                 b == RunEnd(t, a, IsSpace)
                 e == RunEnd(t, b, LAMBDA c : ~IsSpace(c))
             IN Trim(SubSeq(t, e, Len(t)))
RECURSIVE HeadFrom(_, _, _)
(* <<headers, position after the blank line>>, <<>> if the head is not complete *)
HeadFrom(t, p, acc) ==
    LET e == Find(t, p, 10)
        l == SubSeq(t, p, e - 1)
    IN IF e > Len(t) THEN <<>>
       ELSE IF BlankLine(l) THEN <<acc, e + 1>>
       ELSE HeadFrom(t, e + 1, IF Pair(l) = <<>> THEN acc ELSE Append(acc, Pair(l)))
ResponseOf(bytes) ==
    LET d == Decode(bytes)
        t == d[2]
        e == Find(t, 1, 10)
        l == SubSeq(t, 1, e - 1)
        ws == Words(l)
        h == HeadFrom(t, e + 1, <<>>)
        n == Nat16(Some(ws, 2))
    IN IF ~d[1] THEN NoResponse
       ELSE IF e > Len(t) THEN NoResponse
       ELSE IF h = <<>> THEN NoResponse
       ELSE [version |-> Some(ws, 1), status |-> IF n < 0 THEN 0 ELSE n, reason |-> Reason(l),
             headers |-> h[1], body |-> SubSeq(t, h[2], Len(t)), error |-> FALSE]
===========================================================================

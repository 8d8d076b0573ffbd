------------------------------ MODULE Exchange ------------------------------
(* What the servers of a recording saw and answered, connection by          *)
(* connection, and what follows from it.  A recording has the fields        *)
(*   srv    seq of <<host, port>>: the addresses that accept connections    *)
(*   exch   seq of [wire: bytes received, whole: BOOLEAN,                   *)
(*                  sent: bytes answered, end: "close" | "broken"]          *)
(*          addr: optional, the <<host, port>> of srv that was connected to *)
(*   files  seq of <<path, bytes>>                                          *)
(*   where the peer speaks TLS or should (https), an exchange has           *)
(*     peer   who it was, see Tls; roots, year: who is trusted, and when    *)
(*     raw    the bytes it received before decrypting                       *)
EXTENDS Lang, Tls, IOUtils

(* with EXACT=1 in the environment a displayed value must be the specified text itself wherever that is *)
(* determined; otherwise any numeral of a float will do                                                *)
Exact == "EXACT" \in DOMAIN IOEnv /\ IOEnv.EXACT = "1"
ShownAt(v, t, p) == IF Exact /\ HasText(v) THEN After(t, p, TextOf(v)) ELSE MatchV(v, t, p, FALSE)

Has(x, f) == f \in DOMAIN x
Trusted(e) == IF Has(e, "peer") THEN Authenticated(e.peer, e.addr[1], {e.roots[i] : i \in 1..Len(e.roots)}, e.year) ELSE TRUE
Response(e) == IF e.end = "close" /\ Trusted(e) THEN ResponseOf(e.sent) ELSE NoResponse
FeedOf(x) == IF Has(x, "exch") THEN [i \in 1..Len(x.exch) |-> Response(x.exch[i])] ELSE <<>>
ServersOf(x) == IF Has(x, "srv") THEN {x.srv[i] : i \in 1..Len(x.srv)} ELSE {}
FilesOf(x) == IF Has(x, "files") THEN FoldLeft(LAMBDA f, pb : (pb[1] :> pb[2]) @@ f, <<>>, x.files) ELSE <<>>
(* TLS records: type, version, length; what is beyond alerts and handshake is not enough for a request *)
RECURSIVE RecordsAt(_, _, _)
RecordsAt(b, p, data) == \* -> the bytes of application data, -1: these are no TLS records
    IF p > Len(b) THEN data
    ELSE IF b[p] \notin {20, 21, 22, 23} \/ (p < Len(b) /\ b[p + 1] # 3) THEN -1
    ELSE IF p + 4 > Len(b) THEN data
    ELSE LET n == b[p + 3] * 256 + b[p + 4] IN RecordsAt(b, p + 5 + n, IF b[p] = 23 THEN data + n ELSE data)
(* an untrusted peer gets nothing of the request *)
NothingSent(e) == e.wire = <<>> /\ RecordsAt(e.raw, 1, 0) \in 0..200
AddressOk(e, q) == Has(e, "addr") => e.addr = <<q.url.host, q.url.port>>
GotRequest(e, q, files) == IF ~Trusted(e) THEN NothingSent(e) ELSE e.whole => WireOk(e.wire, q, files)
(* the exchanges made (recs) are exactly the ones seen, each request whole on the wire *)
WiresOk(x, recs) ==
    LET made == SelectSeq(recs, LAMBDA r : r.sent)
    IN IF ~Has(x, "exch") THEN made = <<>>
       ELSE /\ Len(made) = Len(x.exch)
            /\ \A i \in 1..Len(made) : AddressOk(x.exch[i], Request(made[i].msg))
            /\ \A i \in 1..Len(made) : GotRequest(x.exch[i], Request(made[i].msg), FilesOf(x))
===========================================================================

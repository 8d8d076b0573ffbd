------------------------------ MODULE Report ------------------------------
(* What is shown and recorded of an exchange                                *)
(* e = [name, msg, sent, resp, asserts] (module Lang).                      *)
EXTENDS Avro, Exchange

STest == S("=== TEST  ") SArrow == S(" => ") SPass == S("--- PASS  ") SFailed == S("--- FAIL  ") SOpen == S(" (") SClose == <<41, 10>>
Passed(e) == ~e.resp.error /\ \A i \in 1..Len(e.asserts) : e.asserts[i].res

(* a duration as shown -> <<nanoseconds (magnitude), next position>>, <<>> if there is none *)
Units == <<<<S("ns"), 0>>, <<<<181, 115>>, 3>>, <<S("ms"), 6>>, <<S("s"), 9>>>>
RECURSIVE ZeroPad(_, _)
ZeroPad(t, n) == IF Len(t) < n THEN ZeroPad(Append(t, 48), n) ELSE t
DurationAt(t, p) ==
    LET a == RunEnd(t, p, IsDigit)
        dot == a <= Len(t) /\ t[a] = 46
        b == IF dot THEN RunEnd(t, a + 1, IsDigit) ELSE a
        frac == IF dot THEN SubSeq(t, a + 1, b - 1) ELSE <<>>
        us == SelectSeq(Units, LAMBDA u : After(t, b, u[1]) # 0)
    IN IF a = p \/ us = <<>> THEN <<>>
       ELSE IF Len(frac) > us[1][2] \/ (dot /\ frac = <<>>) THEN <<>>
       ELSE <<BOfDigits(SubSeq(t, p, a - 1) \o ZeroPad(frac, us[1][2])), After(t, b, us[1][1])>>
RECURSIVE AssertsAt(_, _, _, _)
AssertsAt(as, i, t, p) ==
    IF p = 0 \/ i > Len(as) THEN p
    ELSE LET a == as[i]
             l == ShownAt(a.left, t, After(t, p, ExprText(a.expr) \o SArrow))
             r == ShownAt(a.right, t, After(t, l, <<32>> \o S(a.cmp) \o <<32>>))
         IN AssertsAt(as, i + 1, t, After(t, r, SArrow \o (IF a.res THEN STrue ELSE SFalse) \o <<10>>))
(* the report of e at p -> <<duration, next position>>, <<>> if it is not there *)
ReportAt(e, t, p) ==
    LET a == AssertsAt(e.asserts, 1, t, After(t, p, STest \o e.name \o <<10>>))
        b == After(t, a, (IF Passed(e) THEN SPass ELSE SFailed) \o e.name \o SOpen)
        d == IF b = 0 THEN <<>> ELSE DurationAt(t, b)
    IN IF d = <<>> THEN <<>> ELSE IF After(t, d[2], SClose) = 0 THEN <<>> ELSE <<d[1], After(t, d[2], SClose)>>

(* does the record say what was exchanged?  wire: the bytes the peer received (if sent) *)
TextIs(d, t) == d = <<"str", Utf8(t)>>
ShownIs(d, v) == d[1] = "str" /\ LET t == Decode(d[2]) IN t[1] /\ ShownAt(v, t[2], 1) = Len(t[2]) + 1
PairsAre(d, hs) == d = <<"arr", [i \in 1..Len(hs) |-> <<"arr", <<<<"str", Utf8(hs[i][1])>>, <<"str", Utf8(hs[i][2])>>>>>>]>>
NatIs(d, n) == d = IntOf(n)
Fields == {"name", "thread", "number", "order", "time_start", "time_end", "time_total", "time_resolve", "time_connect", "time_write",
    "time_delay", "time_read", "request_name", "request_method", "request_url", "request_version", "request_headers", "request_body",
    "response_version", "response_status", "response_reason", "response_headers", "response_body", "asserts", "error",
    "expr", "left", "compare", "right", "result"}
FieldCode == TLCEval([k \in Fields |-> S(k)])
F(r, k) == r[FieldCode[k]]
AssertIs(d, a) == /\ TextIs(F(d[2], "expr"), ExprText(a.expr)) /\ ShownIs(F(d[2], "left"), a.left) /\ TextIs(F(d[2], "compare"), S(a.cmp))
                  /\ ShownIs(F(d[2], "right"), a.right) /\ F(d[2], "result") = <<"bool", a.res>>
RequestIs(r, e, wire) ==
    LET q == Request(e.msg)
        b == IF e.sent THEN WireBoundary(q, wire) ELSE <<>>
    IN /\ TextIs(F(r, "request_name"), e.name)
       /\ TextIs(F(r, "request_method"), q.method) /\ TextIs(F(r, "request_url"), UrlText(q.url)) /\ TextIs(F(r, "request_version"), q.version)
       /\ (q.kind = "multi" /\ b = <<>>) \/ PairsAre(F(r, "request_headers"), SentHeaders(q, b))
       /\ TextIs(F(r, "request_body"), q.text)
ResponseIs(r, p) ==
    /\ TextIs(F(r, "response_version"), p.version) /\ NatIs(F(r, "response_status"), p.status) /\ TextIs(F(r, "response_reason"), p.reason)
    /\ PairsAre(F(r, "response_headers"), p.headers) /\ TextIs(F(r, "response_body"), p.body)
AssertsAre(r, as) == LET d == F(r, "asserts") IN Len(d[2]) = Len(as) /\ \A i \in 1..Len(as) : AssertIs(d[2][i], as[i])
ErrorIs(r, p) == (F(r, "error")[2] # <<>>) = p.error
Time(r, k) == F(r, k)
TimesAdd(r, p) ==
    /\ \A k \in {"time_start", "time_end", "time_total", "time_resolve", "time_connect", "time_write", "time_delay", "time_read"} : ~Time(r, k)[2]
    /\ ~p.error => /\ Time(r, "time_total") = IAdd(Time(r, "time_resolve"), IAdd(Time(r, "time_connect"), IAdd(Time(r, "time_write"), IAdd(Time(r, "time_delay"), Time(r, "time_read")))))
                   /\ ICmp(IAdd(Time(r, "time_start"), Time(r, "time_total")), Time(r, "time_end")) <= 0
(* a pause made in a phase shows in its time and in no other; p: milliseconds per phase, slack: what may be off *)
Phases5 == {"resolve", "connect", "write", "delay", "read"}
PhaseField == [resolve |-> "time_resolve", connect |-> "time_connect", write |-> "time_write", delay |-> "time_delay", read |-> "time_read"]
Nanos(ms) == BMul(BNat(ms), BNat(1000000))
PausesShow(r, p, slack) == \A k \in Phases5 : LET z == Time(r, PhaseField[k]) IN
    ~z[2] /\ BCmp(z[3], Nanos(p[k] + slack)) <= 0 /\ (p[k] > slack => BCmp(z[3], Nanos(p[k] - slack)) >= 0)
FieldNames == TLCEval({FieldCode[k] : k \in Fields \ {"expr", "left", "compare", "right", "result"}})
RecordIs(r, test, thread, number, order, e, wire) ==
    /\ FieldNames \subseteq DOMAIN r
    /\ TextIs(F(r, "name"), test) /\ NatIs(F(r, "thread"), thread) /\ NatIs(F(r, "number"), number) /\ NatIs(F(r, "order"), order)
    /\ RequestIs(r, e, wire) /\ ResponseIs(r, e.resp) /\ AssertsAre(r, e.asserts) /\ ErrorIs(r, e.resp) /\ TimesAdd(r, e.resp)
===========================================================================

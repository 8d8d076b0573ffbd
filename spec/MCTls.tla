------------------------------- MODULE MCTls -------------------------------
(* A call over https against every peer of a small world.  The client says  *)
(* hello; the peer answers with its certificates and proof of its key, or   *)
(* with something else, or goes away at any moment; only a client that has  *)
(* checked what it got sends its request.                                   *)
EXTENDS Tls, TLC
Host == S("a.t")
Year == 2
Keys == {"r", "x", "i", "l"}
Roots == {"r"}
Names == {<<>>, <<[ip |-> FALSE, text |-> Host]>>, <<[ip |-> FALSE, text |-> S("b.t")], [ip |-> FALSE, text |-> S("*.t")]>>, <<[ip |-> FALSE, text |-> S("*.a.t")]>>}
Times == {<<1, 3>>, <<0, 1>>, <<3, 4>>}
Own == [key : {"l"}, signer : Keys, ca : {FALSE}, from : {0, 1, 3}, until : {1, 3, 4}, names : Names]
Others == [key : {"i", "x"}, signer : {"r", "x", "i"}, ca : BOOLEAN, from : {1}, until : {1, 3}, names : {<<>>}]
Peers == [tls : BOOLEAN, certs : {<<>>} \cup {<<c>> : c \in Own} \cup {<<c, d>> : c \in Own, d \in Others}]
VARIABLES peer, client, server, shown, request, plain
vars == <<peer, client, server, shown, request, plain>>
(* client: what it does next; server: what the peer does; shown: what the client has got; request, plain: what it has sent of its request,
   encrypted for whom it has checked, or in the clear *)
Init == peer \in Peers /\ client = "hello" /\ server = "up" /\ shown = "nothing" /\ request = 0 /\ plain = 0
Hello == client = "hello" /\ client' = "waits" /\ UNCHANGED <<peer, server, shown, request, plain>>
Shows == client = "waits" /\ server = "up" /\ shown = "nothing" /\ peer.tls /\ shown' = "certificates" /\ UNCHANGED <<peer, client, server, request, plain>>
Noise == server = "up" /\ shown = "nothing" /\ ~peer.tls /\ shown' = "noise" /\ UNCHANGED <<peer, client, server, request, plain>>
Leaves == server = "up" /\ server' = "gone" /\ UNCHANGED <<peer, client, shown, request, plain>>
Checks == /\ client = "waits" /\ shown = "certificates"
          /\ client' = (IF Authenticated(peer, Host, Roots, Year) THEN "sends" ELSE "failed")
          /\ UNCHANGED <<peer, server, shown, request, plain>>
Refuses == client = "waits" /\ (shown = "noise" \/ (shown = "nothing" /\ server = "gone")) /\ client' = "failed" /\ UNCHANGED <<peer, server, shown, request, plain>>
Sends == client = "sends" /\ request' = 1 /\ client' = (IF server = "up" THEN "answered" ELSE "failed") /\ UNCHANGED <<peer, server, shown, plain>>
Next == Hello \/ Shows \/ Noise \/ Leaves \/ Checks \/ Refuses \/ Sends
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* said once more, not in terms of paths: what makes a peer of this world one to talk to *)
InYear(c) == c.from <= Year /\ c.until >= Year
Good(p) == /\ p.tls /\ p.certs # <<>>
           /\ LET c == p.certs[1]
                  d == IF Len(p.certs) > 1 THEN p.certs[2] ELSE [key |-> "none", signer |-> "none", ca |-> FALSE, from |-> 0, until |-> 0]
              IN /\ InYear(c) /\ c.names \in {<<[ip |-> FALSE, text |-> Host]>>, <<[ip |-> FALSE, text |-> S("b.t")], [ip |-> FALSE, text |-> S("*.t")]>>}
                 /\ c.signer = "r" \/ (d.key = c.signer /\ d.signer = "r" /\ d.ca /\ InYear(d))
OnlyGood == request > 0 => Good(peer)
NeverPlain == plain = 0
EndsUp == <>(client \in {"answered", "failed"})
Served == Good(peer) => <>(client = "answered" \/ server = "gone")
(* names *)
N(t) == [ip |-> FALSE, text |-> S(t)]
ASSUME /\ Covers(N("a.b.c"), S("a.b.c")) /\ Covers(N("A.b.C"), S("a.B.c")) /\ ~Covers(N("a.b.c"), S("b.c")) /\ ~Covers(N("b.c"), S("a.b.c"))
       /\ Covers(N("*.b.c"), S("a.b.c")) /\ ~Covers(N("*.b.c"), S("b.c")) /\ ~Covers(N("*.b.c"), S("x.a.b.c")) /\ ~Covers(N("a.b"), S("a.bc")) /\ ~Covers(N("a.*.c"), S("a.b.c"))
       /\ Covers([ip |-> TRUE, text |-> S("127.0.0.1")], S("127.0.0.1")) /\ ~Covers(N("127.0.0.1"), S("127.0.0.1")) /\ ~Covers(N("*.0.0.1"), S("127.0.0.1"))
===========================================================================

-------------------------------- MODULE Tls --------------------------------
(* Which peers are authenticated for a host.  A certificate:                *)
(*   key     the key it certifies                                           *)
(*   signer  the key that signed it                                         *)
(*   ca      may its key sign certificates                                  *)
(*   from, until   the years it is valid in (inclusive)                     *)
(*   names   seq of [ip: BOOLEAN, text]                                     *)
(* A peer:                                                                  *)
(*   tls     does it complete a handshake                                   *)
(*   certs   what it shows, its own certificate first                       *)
EXTENDS Http

(* a wildcard stands for exactly one label, the leftmost *)
Covers(n, host) ==
    IF n.ip \/ IsIp(host) THEN n.ip /\ n.text = host
    ELSE LET a == Labels(n.text) b == Labels(host)
         IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (i = 1 /\ a[1] = <<42>> /\ b[1] # <<>>)
InTime(c, year) == c.from <= year /\ year <= c.until
RECURSIVE Chains(_, _, _, _)
(* a path from c over the certificates of pool to a root *)
Chains(c, pool, roots, year) ==
    \/ c.signer \in roots
    \/ \E d \in pool : d.key = c.signer /\ d.ca /\ InTime(d, year) /\ Chains(d, pool \ {d}, roots, year)
Authenticated(p, host, roots, year) ==
    IF ~p.tls \/ p.certs = <<>> \/ ~CanBeNamed(host) THEN FALSE
    ELSE LET own == p.certs[1] IN
         /\ InTime(own, year)
         /\ Chains(own, {p.certs[i] : i \in 2..Len(p.certs)}, roots, year)
         /\ \E i \in 1..Len(own.names) : Covers(own.names[i], host)
===========================================================================

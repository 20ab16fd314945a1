-------------------------------- MODULE Tls ---------------------------------
(* Serving TLS from certificate files: which handshakes succeed, and with      *)
(* what outcome, for a server's configuration and a client's offer.            *)
(*                                                                            *)
(* A configuration: present, min, max (0: unset; 10..13), suites, protos,      *)
(* curves (<<"nil">>: unset), auth 0..4, cas, tickets, vp and vc (callbacks),  *)
(* keylog, time, rand, ech, gc, certs, gcfc, and inner: the configuration that *)
(* a callback (gcfc = "other") puts in its place.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Strict(_)

VARIABLES servers,   \* [up, cfg, std]
          session    \* the client's session cache: where its ticket is from
tlsvars == <<servers, session>>

Unset(l) == l = <<"nil">>
Range(s) == {s[i] : i \in 1..Len(s)}
Min(c) == IF ~c.present THEN 10 ELSE IF c.min = 0 THEN 12 ELSE c.min
Max(c) == IF ~c.present \/ c.max = 0 THEN 13 ELSE c.max
\* what is offered: HTTP/1.1 always, after what the user wants.  The standard server also takes
\* out HTTP/2 where it does not speak it; a configuration chosen by the user's callback stays as it is.
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Protos(c, std, chosen) ==
  LET own == IF ~c.present \/ Unset(c.protos) THEN <<>> ELSE c.protos
      mine == IF std THEN Without(own, "h2") ELSE own
  IN IF chosen THEN own ELSE IF "http/1.1" \in Range(mine) THEN mine ELSE Append(mine, "http/1.1")
\* the configuration which governs a handshake
Chosen(c) == c.present /\ c.gcfc = "other"
Governing(c) == IF Chosen(c) THEN c.inner ELSE c

----------------------------------------------------------------------------
Vers(lo, hi) == {v \in 10..13 : v >= lo /\ v <= hi}
Common(g, k) == Vers(Min(g), Max(g)) \cap Vers(k.min, k.max)
Highest(s) == CHOOSE v \in s : \A w \in s : w <= v
Suites == {"gcm", "cbc", "cha"}        \* that go with the certificate
Lists(l, all) == IF Unset(l) THEN all ELSE Range(l)
Fits(s, v) == v = 12 \/ s = "cbc"
Curves == {"p256", "p384", "x25519", ""}
SharedCurves(g, k) == Lists(g.curves, Curves) \cap Lists(k.curves, Curves)
SharedSuites(g, k, v) == {s \in Suites \cap Lists(g.suites, Suites) \cap Lists(k.suites, Suites) : Fits(s, v)}
\* the protocol, or "-" when there is none to agree on
Alpn(server, client) ==
  IF server = <<>> \/ client = <<>> \/ Unset(client) THEN ""
  ELSE LET hit == {i \in 1..Len(server) : server[i] \in Range(client)} IN
       IF hit # {} THEN server[CHOOSE i \in hit : \A j \in hit : i <= j]
       ELSE IF "h2" \in Range(server) /\ "http/1.1" \in Range(client) THEN ""
       ELSE "-"
\* the client's certificate is acceptable
Authentic(g, k) ==
  /\ g.auth \in {2, 4} => k.cert # "none"
  /\ g.auth \in {3, 4} /\ k.cert # "none" => g.cas = k.cert /\ g.time = "none"
  /\ g.auth # 0 => g.vp # "err"
Nil == [present |-> FALSE, min |-> 0, max |-> 0, suites |-> <<"nil">>, protos |-> <<"nil">>, curves |-> <<"nil">>, auth |-> 0, cas |-> "none", tickets |-> "on",
        vp |-> "none", vc |-> "none", keylog |-> FALSE, time |-> "none", rand |-> "none", ech |-> FALSE, gc |-> "none", certs |-> FALSE, gcfc |-> "none"]
Of(c) == IF c.present THEN c ELSE [Nil EXCEPT !.present = FALSE]
\* a handshake of client k with server s: [ok, free, ver, alpn, ...]
Shake(s, k) ==
  LET c == Of(s.cfg)  g == Of(Governing(c))  vs == Common(g, k)  v == Highest(vs)
      p == Alpn(Protos(g, s.std, Chosen(c)), k.protos)
      own == ~Chosen(c) /\ k.sni /\ g.gc # "none"       \* the user provides a certificate after all
      good == /\ s.up /\ k.kind = "tls" /\ vs # {}
              /\ SharedCurves(g, k) # {} /\ (v < 13 => SharedSuites(g, k, v) # {} /\ SharedCurves(g, k) # {""})
              /\ p # "-" /\ Authentic(g, k) /\ g.vc # "err" /\ g.rand # "fail" /\ c.gcfc # "err"
              /\ k.ech => g.ech /\ v = 13
      closes == s.std /\ p \notin {"", "http/1.1"}        \* net/http does not go on with other protocols
  IN [ok |-> good, free |-> good /\ (own \/ closes), ver |-> IF vs = {} THEN 0 ELSE v, alpn |-> p, suites |-> IF vs = {} \/ v = 13 THEN {""} ELSE SharedSuites(g, k, v),
      curves |-> SharedCurves(g, k), asked |-> g.auth # 0, cert |-> IF Chosen(c) THEN "inner" ELSE "file", logged |-> g.keylog, g |-> g,
      simple |-> g.auth = 0 /\ c.gcfc = "none" /\ ~own]

----------------------------------------------------------------------------
\* sessions
Keys(n) == LET t == Of(servers[n].cfg).tickets IN
  CASE t \in {"k1", "f1"} -> "1" [] t = "k2" -> "2" [] t = "wrap" -> "3" [] t = "off" -> "none" [] OTHER -> "own" \o ToString(n)
Issues(n) == Of(servers[n].cfg).tickets # "off"
Takes(n) == Of(servers[n].cfg).tickets \notin {"off", "refuse"}
Alike(m, n) == [servers[m].cfg EXCEPT !.tickets = ""] = [servers[n].cfg EXCEPT !.tickets = ""] /\ servers[m].std = servers[n].std
None == [has |-> FALSE, sure |-> TRUE, srv |-> 0, cli |-> <<>>, keys |-> ""]
\* may, must the session be resumed
MayResume(n, k, h) == k.resume /\ (~session.sure \/ (session.has /\ (h.simple => Takes(n) /\ session.keys = Keys(n))))
MustResume(n, k, h) == h.simple /\ k.resume /\ session.has /\ session.sure /\ session.cli = k /\ Alike(session.srv, n) /\ Takes(n) /\ session.keys = Keys(n)

Init == servers = <<>> /\ session = None
\* res: "up": it serves; "err": an error was returned and nothing listens
Serve(cfg, files, std, res) ==
  /\ Strict("C34") => res = IF files = "good" THEN "up" ELSE "err"
  /\ servers' = Append(servers, [up |-> res = "up", cfg |-> cfg, std |-> std])
  /\ UNCHANGED session
\* o: what the client saw
Handshake(n, k, o) ==
  LET h == Shake(servers[n], k)  r == k.resume IN
  /\ Strict("C34") =>
       /\ (h.free \/ o.ok = h.ok \/ (r /\ (session.has \/ ~session.sure) /\ ~h.simple))   \* a resumed session brings what was found out about the client
       /\ o.ok => /\ o.ver = h.ver /\ o.alpn = h.alpn
                  /\ (o.resumed \/ (o.suite \in h.suites /\ o.curve \in h.curves))
                  /\ (o.resumed \/ h.free \/ o.cert = h.cert)
                  /\ (o.resumed \/ o.asked = h.asked)
                  /\ (o.resumed => MayResume(n, k, h)) /\ (MustResume(n, k, h) => o.resumed)
                  /\ (o.resumed \/ o.logged = h.logged)
                  /\ (o.echok <=> k.ech)
  /\ session' = IF ~r THEN session
                ELSE IF ~o.ok THEN [session EXCEPT !.sure = session.sure /\ ~session.has /\ ~h.free]
                ELSE IF h.simple /\ Issues(n) THEN [has |-> TRUE, sure |-> TRUE, srv |-> n, cli |-> k, keys |-> Keys(n)]
                ELSE IF h.simple THEN [session EXCEPT !.sure = session.sure /\ ~session.has]
                ELSE [session EXCEPT !.sure = FALSE]
  /\ UNCHANGED servers
\* the configurations are as they were
End(same) == (Strict("C34") => \A i \in 1..Len(same) : same[i]) /\ UNCHANGED tlsvars
=============================================================================

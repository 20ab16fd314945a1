------------------------------- MODULE TlsGen -------------------------------
(* Configurations of servers, offers of clients and, for sessions, short       *)
(* histories of handshakes; all are printed as stimuli.                        *)
EXTENDS Tls, GenUtil

CONSTANTS Part, MaxOps
VARIABLES hist, last
vars == <<tlsvars, hist, last>>
all(p) == TRUE

Base == [Nil EXCEPT !.present = TRUE] @@ [inner |-> [Nil EXCEPT !.present = TRUE]]
None0 == Nil @@ [inner |-> [Nil EXCEPT !.present = TRUE]]
Cli == [kind |-> "tls", min |-> 10, max |-> 13, suites |-> <<"nil">>, protos |-> <<"nil">>, curves |-> <<"nil">>, sni |-> TRUE, cert |-> "none", resume |-> FALSE, ech |-> FALSE]
V == {<<lo, hi>> \in (10..13) \X (10..13) : lo <= hi}
Lists0 == {<<"nil">>, <<>>, <<"h2">>, <<"http/1.1">>, <<"h2", "http/1.1">>, <<"http/1.1", "h2">>, <<"foo">>, <<"foo", "http/1.1">>, <<"foo", "bar">>, <<"h2", "foo">>}
Suites0 == {<<"nil">>, <<>>, <<"gcm">>, <<"cbc">>, <<"cha">>, <<"rsa">>, <<"gcm", "cbc">>, <<"cbc", "cha">>, <<"cha", "gcm">>}
Curves0 == {<<"nil">>, <<"p256">>, <<"x25519">>, <<"p384", "p256">>}
Certs == {"none", "ca1", "ca2"}
Configs ==
  CASE Part = "versions" -> {None0} \cup {[Base EXCEPT !.min = lo, !.max = hi] : lo \in {0} \cup 10..13, hi \in {0} \cup 10..13}
    [] Part = "protos" -> {None0} \cup {[Base EXCEPT !.protos = p] : p \in Lists0}
    [] Part = "auth" -> {[Base EXCEPT !.auth = a, !.cas = c, !.vp = v, !.vc = w, !.time = t] : a \in 0..4, c \in Certs, v \in {"none", "ok", "err"}, w \in {"none", "ok", "err"}, t \in {"none", "future"}}
    [] Part = "suites" -> {[Base EXCEPT !.min = 10, !.suites = s, !.curves = c] : s \in Suites0, c \in Curves0}
    [] Part = "rest" -> {[Base EXCEPT !.keylog = k, !.rand = r, !.ech = e, !.gc = g, !.certs = c] : k \in BOOLEAN, r \in {"none", "fail"}, e \in BOOLEAN, g \in {"none", "cert", "err"}, c \in BOOLEAN}
    [] Part = "chosen" -> {[Base EXCEPT !.gcfc = g, !.min = m, !.keylog = k, !.auth = a, !.inner = [Base.inner EXCEPT !.min = n, !.max = x, !.protos = p, !.auth = b, !.keylog = ~k]] :
                            g \in {"none", "nil", "err", "other"}, m \in {0, 13}, k \in BOOLEAN, a \in {0, 2}, n \in {0, 10}, x \in {0, 12}, p \in {<<"nil">>, <<"foo">>, <<"http/1.1">>}, b \in {0, 4}}
    [] OTHER -> {[Base EXCEPT !.tickets = t, !.max = m] : t \in {"on", "off", "k1", "k2", "f1", "wrap", "refuse"}, m \in {0, 12}}
Clients ==
  CASE Part = "versions" -> {[Cli EXCEPT !.min = v[1], !.max = v[2]] : v \in V} \cup {[Cli EXCEPT !.kind = "ssl3"]}
    [] Part = "protos" -> {[Cli EXCEPT !.protos = p, !.max = m] : p \in Lists0 \ {<<>>}, m \in {12, 13}}
    [] Part = "auth" -> {[Cli EXCEPT !.cert = c, !.max = m] : c \in Certs, m \in {12, 13}}
    [] Part = "suites" -> {[Cli EXCEPT !.suites = s, !.curves = c, !.max = m] : s \in Suites0 \ {<<>>}, c \in Curves0, m \in {11, 12, 13}}
    [] Part = "rest" -> {[Cli EXCEPT !.sni = s, !.max = m] : s \in BOOLEAN, m \in {12, 13}} \cup {[Cli EXCEPT !.ech = TRUE, !.min = 13]}
    [] Part = "chosen" -> {[Cli EXCEPT !.protos = p, !.max = m, !.cert = c] : p \in {<<"nil">>, <<"http/1.1">>, <<"foo", "h2">>}, m \in {11, 12, 13}, c \in {"none", "ca1"}}
    [] OTHER -> {[Cli EXCEPT !.resume = r, !.min = v, !.max = v] : r \in BOOLEAN, v \in {12, 13}}
N == IF Part = "sessions" THEN 2 ELSE 1
TInit == Init /\ hist = <<>> /\ last = [ok |-> FALSE]
\* what the specification expects (the least of what it allows)
Expected(n, k, h, res) == [ok |-> h.ok, ver |-> h.ver, alpn |-> h.alpn, suite |-> IF h.suites = {} THEN "" ELSE CHOOSE s \in h.suites : TRUE, curve |-> IF h.curves = {} THEN "" ELSE CHOOSE c \in h.curves : TRUE,
                      cert |-> h.cert, asked |-> h.asked, resumed |-> res, logged |-> h.logged, echok |-> k.ech, cfg |-> servers[n].cfg, cli |-> k, srv |-> n]
Next ==
  \/ /\ Len(servers) < N
     /\ \E c \in Configs : Serve(c, "good", FALSE, "up") /\ hist' = Append(hist, [op |-> "serve", cfg |-> c]) /\ UNCHANGED last
     /\ (Part # "sessions" => Emit("CFG", hist'[1].cfg))
  \/ /\ Len(servers) = N /\ Len(hist) < MaxOps
     /\ \E n \in 1..N, k \in Clients :
          LET h == Shake(servers[n], k)  o == Expected(n, k, h, h.ok /\ MustResume(n, k, h)) IN
          Handshake(n, k, o) /\ last' = o /\ hist' = Append(hist, [op |-> "hs", srv |-> n, cli |-> k])
     /\ IF Part = "sessions" THEN (Len(hist') = MaxOps => Emit("STIM", hist')) ELSE (hist[1].cfg = CHOOSE c \in Configs : TRUE) => Emit("CLI", hist'[2].cli)
----------------------------------------------------------------------------
\* what users rely on
Floor == last.ok => last.ver >= 10
Bounds == last.ok => LET g == Governing(last.cfg) IN last.ver >= Min(g) /\ last.ver <= Max(g) /\ last.ver >= last.cli.min /\ last.ver <= last.cli.max
Http11 == last.ok /\ last.cfg.gcfc # "other" /\ last.cli.protos = <<"http/1.1">> => last.alpn \in {"http/1.1", ""}
Offers == last.ok /\ ~last.cfg.present /\ "http/1.1" \in Range(last.cli.protos) => last.alpn = "http/1.1"
Known == last.ok /\ Governing(last.cfg).auth = 4 => Governing(last.cfg).cas = last.cli.cert
NoForeignSession == last.ok /\ last.resumed => last.cfg.tickets \notin {"off", "refuse"} /\ last.cli.resume
=============================================================================

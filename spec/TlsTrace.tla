------------------------------ MODULE TlsTrace ------------------------------
(* Tls driven by recorded traces.                                             *)
(*  serve cfg files fn res        fn: "method", "func", or "std" for net/http  *)
(*  hs srv cli ok ver alpn suite curve cert asked resumed echok logged         *)
(*  end same                                                                  *)
EXTENDS Tls, TraceUtil, Json

VARIABLES tid, l
StrictProp(p) == p = Prop
Step(e) ==
  CASE e.op = "serve" -> Serve(e.cfg, e.files, e.fn = "std", e.res)
    [] e.op = "hs" -> Handshake(e.srv, e.cli, e)
    [] e.op = "end" -> End(e.same)
    [] OTHER -> FALSE
Why(e) == IF e.op = "hs" THEN ToJson(Shake(servers[e.srv], e.cli)) ELSE ""
TraceInit == tid \in 1..Len(Traces) /\ l = 0 /\ Init
TraceNext == /\ l < Len(Traces[tid])
             /\ (IF ENABLED Step(Traces[tid][l + 1]) THEN TRUE ELSE Rej(tid, l + 1, Why(Traces[tid][l + 1])))
             /\ Step(Traces[tid][l + 1])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

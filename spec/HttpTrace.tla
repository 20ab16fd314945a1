----------------------------- MODULE HttpTrace -----------------------------
(* Http driven by recorded traces.                                            *)
(*  call i k l        k: serve, shutdown, now, wait                           *)
(*  ret i k res same  raise  tick  dial c l  send c t k  cclose c             *)
(*  lfail l kind  uaccept c  uaccerr l res  ulclose l                         *)
(*  hstart c n k  hhalf c  hend c how  hij c  hclose c                        *)
(*  cs c s  uclose c n  nhidle c (net/http takes c for idle)                  *)
(*  raw ok            the user's server value, served directly                *)
(*  quiet obs         obs: <<[c, n, bad, pongs]>>                             *)
EXTENDS Http, TraceUtil, Json

VARIABLES tid, l
tvars == <<hvars, tid, l>>

StrictProp(p) ==
  CASE p = "C26" -> Prop = "C26"
    [] p = "C27" -> Prop \in {"C26", "C27"}
    [] p = "C28" -> Prop = "C28"
    [] p = "C29" -> Prop = "C29"
    [] OTHER -> FALSE

ObsMap(s) == [c \in {s[i].c : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].c = c]]
\* connections do not matter for every property
Ignored == IF Prop = "C28" THEN {"dial", "send", "cclose", "uaccept", "hstart", "hhalf", "hend", "hij", "hclose", "cs", "uclose", "nhidle"} ELSE {}
RECURSIVE CalmFrom(_)
CalmFrom(j) == IF j > Len(Traces[tid]) \/ Traces[tid][j].op = "quiet" THEN TRUE
               ELSE ~(Traces[tid][j].op = "raise" \/ (Traces[tid][j].op = "call" /\ Traces[tid][j].k \in {"shutdown", "now"})) /\ CalmFrom(j + 1)
Calm == sd = 0 /\ CalmFrom(l + 1)
Step(e) ==
  IF e.op \in Ignored THEN UNCHANGED hvars ELSE
  \/ e.op = "call" /\ IF e.k = "serve" THEN Serve(e.i, e.l) ELSE Ask(e.i, e.k)
  \/ e.op = "ret" /\ IF e.k = "serve" THEN ServeReturn(e.i, e.res, e.same) ELSE Return(e.i)
  \/ e.op = "raise" /\ Raise
  \/ e.op = "tick" /\ Tick
  \/ e.op = "dial" /\ Dial(e.c, e.l)
  \/ e.op = "send" /\ Send(e.c, e.t, e.k)
  \/ e.op = "cclose" /\ ClientClose(e.c)
  \/ e.op = "lfail" /\ Fail(e.l, e.kind)
  \/ e.op = "uaccept" /\ UAccept(e.c)
  \/ e.op = "uaccerr" /\ UAcceptErr(e.l, e.res)
  \/ e.op = "ulclose" /\ UListenerClose(e.l)
  \/ e.op = "hstart" /\ HStart(e.c, e.n, e.k)
  \/ e.op = "hhalf" /\ HHalf(e.c)
  \/ e.op = "hend" /\ HEnd(e.c, e.how)
  \/ e.op = "hij" /\ Hijack(e.c)
  \/ e.op = "hclose" /\ HijClose(e.c)
  \/ e.op = "cs" /\ State(e.c, e.s)
  \/ e.op = "uclose" /\ UClose(e.c, e.n)
  \/ e.op = "nhidle" /\ Decide(e.c)
  \/ e.op = "raw" /\ (Strict("C29") => e.ok) /\ UNCHANGED hvars
  \/ e.op = "quiet" /\ HQuiet(ObsMap(e.obs))

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ HInit
TraceNext == LET calm == Calm IN IF EagerNow(calm) THEN l < Len(Traces[tid]) /\ Eager(calm) /\ UNCHANGED <<tid, l>> ELSE
  \/ /\ l < Len(Traces[tid]) /\ Step(Traces[tid][l + 1])
     /\ l' = l + 1 /\ UNCHANGED tid
     /\ Reached(tid, l')
     /\ (l' = Len(Traces[tid]) => Acc(tid))
  \/ /\ l < Len(Traces[tid]) /\ HInternal /\ UNCHANGED <<tid, l>>
=============================================================================

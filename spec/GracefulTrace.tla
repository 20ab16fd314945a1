--------------------------- MODULE GracefulTrace ---------------------------
(* Graceful driven by recorded traces; the events of ListenerTrace and        *)
(*  [op |-> "call", i, k, c, s]  [op |-> "raise", s]  [op |-> "tick"]         *)
(*  [op |-> "pre", h, sig]  [op |-> "post", h, sig]  [op |-> "hookend", h]    *)
(*  [op |-> "hooksleep", h]  [op |-> "hookwake", h]                           *)
(*  [op |-> "ulclose", l]                                                     *)
EXTENDS Graceful, TraceUtil, Json

VARIABLES tid, l
tvars == <<gvars, tid, l>>

\* which demands are made for which property
StrictProp(p) ==
  CASE p = "C25" -> Prop = "C25"
    [] p = "C26" -> Prop \in {"C26", "C27", "C28"}
    [] p = "C27" -> Prop \in {"C26", "C27"}
    [] p = "C23" -> Prop = "C26"
    [] OTHER -> FALSE

Agrees(e) == O[e.i].k = "accept" /\ O[e.i].ph = "lin" => ((O[e.i].res = "") <=> (e.res = ""))
grest == <<rest, R, hooks, psig, ls>>
UClose(e) ==
  \/ (UCloseOwed(e.c, e.res) \/ (\E i \in DOMAIN O : UClosePass(i, e.c, e.res))) /\ UNCHANGED grest
  \/ /\ Prop \notin {"C26", "C27"} /\ CanClose /\ Open(e.c)
     /\ C' = [C EXCEPT ![e.c].st = "dead", ![e.c].ures = e.res] /\ O' = Forget(O, {e.c}) /\ UNCHANGED <<mode, drain, grest>>
  \/ /\ C[e.c].st \in {"dead", "refused", "own"} /\ ~C[e.c].owed /\ Prop \notin {"C26", "C27"} /\ UNCHANGED gvars
  \/ /\ C[e.c].st = "raw"
     /\ C' = [C EXCEPT ![e.c].st = "refused"]
     /\ O' = [i \in DOMAIN O |-> IF O[i].k = "accept" /\ O[i].c = e.c THEN [O[i] EXCEPT !.ph = "lin", !.res = "refused"] ELSE O[i]]
     /\ UNCHANGED <<mode, drain, grest>>

Running(h, p) == hooks' = [hooks EXCEPT !.in = @ \cup {h}, !.pin = @ \cup p] /\ UNCHANGED <<lvars, rest, R, psig, ls>>
L1(a) == a /\ UNCHANGED grest
Step(e) ==
  \/ e.op = "call" /\ GCall(e.i, e.k, e.c, e.s)
  \/ e.op = "ret" /\ Agrees(e) /\ GReturn(e.i)
  \/ e.op = "raise" /\ Raise(e.s)
  \/ e.op = "tick" /\ Tick
  \/ e.op = "pre" /\ IF Prop = "C25" THEN PreHook(e.h, e.sig) ELSE Running(e.h, {e.h})
  \/ e.op = "post" /\ IF Prop = "C25" THEN PostHook(e.h, e.sig) ELSE Running(e.h, {})
  \/ e.op = "hookend" /\ HookEnd(e.h)
  \/ e.op = "hooksleep" /\ HookSleep(e.h)
  \/ e.op = "hookwake" /\ HookWake(e.h)
  \/ e.op = "ulclose" /\ UListenerClose(e.l)
  \/ e.op = "uaccept" /\ L1(UAccept(e.i, e.c))
  \/ e.op = "uaccerr" /\ L1(UAcceptErr(e.i, e.res))
  \/ e.op = "uread" /\ L1(URead(e.i, e.n, e.res))
  \/ e.op = "usrd" /\ L1(USetDeadline(e.i, e.res))
  \/ e.op = "uclose" /\ UClose(e)
  \/ e.op = "quiet" /\ GQuiet
  \/ e.op \in {"misc", "foreign"} /\ UNCHANGED gvars

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ GInit(Traces[tid][1].mode)
RECURSIVE Calm(_)
Calm(j) == IF j > Len(Traces[tid]) \/ Traces[tid][j].op = "quiet" THEN TRUE
           ELSE ~(Traces[tid][j].op = "call" /\ Traces[tid][j].k \in {"dk", "to"}) /\ Calm(j + 1)
SetCalm == queue # <<>> /\ Pending("dk") \cup Pending("to") = {} /\ Calm(l + 1)
TraceNext == IF EagerNow(SetCalm) THEN l < Len(Traces[tid]) /\ Eager(SetCalm) /\ UNCHANGED <<tid, l>> ELSE
  \/ /\ l < Len(Traces[tid]) /\ Step(Traces[tid][l + 1])
     /\ l' = l + 1 /\ UNCHANGED tid
     /\ Reached(tid, l')
     /\ (l' = Len(Traces[tid]) => Acc(tid))
  \/ /\ l < Len(Traces[tid]) /\ GInternal /\ UNCHANGED <<tid, l>>
=============================================================================

---------------------------- MODULE MStackTrace ----------------------------
(* MStack driven by recorded traces.                                          *)
(*  [op |-> "use", x]  [op |-> "insert", x, b, err]  [op |-> "abandon", x, err]*)
(*  [op |-> "start", r, plain, env, params, nest]                             *)
(*  [op |-> "act", r, a, k, v]                                                *)
(*  [op |-> "at", r, kind, id, env, params, blind]                            *)
EXTENDS MStack, TraceUtil, Json

VARIABLES tid, l
tvars == <<mvars, tid, l>>

PairMap(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = n][2]]
Bind(s) == IF s = "" THEN Empty ELSE "id" :> s

Expected(e) ==
  LET q == reqs[e.r]  c == CtxOf(q)  n == Next1(q) IN
  [kind |-> n.kind, id |-> n.id, env |-> c.env,
   params |-> IF n.kind = "h" THEN Bind(e.bind) @@ c.params ELSE c.params]
Same(e, x) ==
  /\ e.kind = x.kind
  /\ Prop # "C10" => e.id = x.id
  /\ (Prop = "C10" /\ ~e.blind /\ x.kind \in {"in", "h"}) => PairMap(e.env) = x.env /\ PairMap(e.params) = x.params

Has(e) == IF e.r \in DOMAIN reqs THEN TRUE ELSE Rej(tid, l + 1, "no such request")
ErrOk(e, exp) == IF e.err = exp THEN TRUE ELSE Rej(tid, l + 1, "error: " \o ToString(exp))

Step(e) ==
  \/ e.op = "use" /\ Use(e.x)
  \/ e.op = "insert" /\ ErrOk(e, FirstIdx(stack, e.b) = 0) /\ Insert(e.x, e.b, e.err)
  \/ e.op = "abandon" /\ ErrOk(e, FirstIdx(stack, e.x) = 0) /\ Abandon(e.x, e.err)
  \/ e.op = "start" /\ IF e.nest # 0 THEN StartNested(e.r, e.nest)
                       ELSE IF e.plain THEN StartPlain(e.r) ELSE StartC(e.r, PairMap(e.env), PairMap(e.params))
  \/ e.op = "act" /\ Has(e) /\ Act(e.r, e.a, e.k, e.v)
  \/ /\ e.op = "at" /\ Has(e)
     /\ LET x == Expected(e) IN IF Same(e, x) THEN TRUE ELSE Rej(tid, l + 1, ToJson(x))
     /\ Advance1(e.r, IF e.kind = "h" THEN Bind(e.bind) ELSE Empty)

TraceInit == MInit /\ tid \in 1..Len(Traces) /\ l = 0
TraceNext == /\ l < Len(Traces[tid])
             /\ Step(Traces[tid][l + 1])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

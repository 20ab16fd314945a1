------------------------------ MODULE TopTrace ------------------------------
(* Top driven by recorded traces.                                             *)
(*  use m | insert m b err | abandon m err | route name verb pat kind form |   *)
(*  notfound name form | swap                                                 *)
(*  req m path recs h status allow lines escaped                              *)
(*    recs: the recorders met: <<name, has an ID, lines logged so far>>        *)
(*    lines: what was logged: <<what, with an ID, status>>                     *)
EXTENDS Top, TraceUtil, Json

VARIABLES tid, l
Ok(b, e, why) == IF b THEN TRUE ELSE Rej(tid, l + 1, why)
Same(e, x) == /\ e.recs = x.recs /\ e.h = x.h /\ e.status = x.status /\ e.lines = x.lines /\ e.escaped = x.escaped
              /\ (e.escaped \/ e.allow = x.allow)
Step(e) ==
  CASE e.op = "use" -> Use(e.m)
    [] e.op = "insert" -> Ok(e.err = (First(stack, e.b) = 0), e, ToJson(stack)) /\ Insert(e.m, e.b, e.err)
    [] e.op = "abandon" -> Ok(e.err = (First(stack, e.m) = 0), e, ToJson(stack)) /\ Abandon(e.m, e.err)
    [] e.op = "route" -> Register(e.name, e.verb, e.pat, e.kind)
    [] e.op = "notfound" -> NotFound(e.name)
    [] e.op = "swap" -> Swap
    [] e.op = "req" -> Ok(Same(e, Response(e.m, e.path)), e, ToJson(Response(e.m, e.path))) /\ UNCHANGED topvars
    [] OTHER -> Ok(FALSE, e, "no such thing")
TraceInit == tid \in 1..Len(Traces) /\ l = 0 /\ TopInit
TraceNext == /\ l < Len(Traces[tid]) /\ Step(Traces[tid][l + 1])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

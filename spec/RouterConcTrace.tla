--------------------------- MODULE RouterConcTrace ---------------------------
(* RouterConc driven by recorded histories.                                   *)
(*  call id verb pat    ret id     begin j m p ctx    end j out               *)
(*  nf id (before anything overlaps)      stuck                               *)
EXTENDS RouterConc, TraceUtil, Json

VARIABLES tid, l
tvars == <<cvars, tid, l>>

Same(o, x) == /\ o.h = <<x.h>> /\ o.own
              /\ o.blind \/ (SeqToSet(o.params) = x.params /\ o.vm = x.vm)
Step(e) ==
  CASE e.op = "call" -> Call(e.id, e.verb, e.pat)
    [] e.op = "ret" -> Return(e.id)
    [] e.op = "begin" -> Begin(e.j, e.m, e.p, e.ctx)
    [] e.op = "end" -> Done(e.j) /\ LET res == Res(e.j) IN (\E k \in Tables(e.j) : Same(e.out, By(e.j, k, res)))
    [] e.op = "nf" -> SetNotFound(e.id) /\ UNCHANGED <<calls, eff, live>>
    [] OTHER -> FALSE
TraceInit == CInit /\ tid \in 1..Len(Traces) /\ l = 0
TraceNext ==
  /\ l < Len(Traces[tid]) /\ UNCHANGED tid
  /\ \/ Step(Traces[tid][l + 1]) /\ l' = l + 1 /\ Reached(tid, l') /\ (l' = Len(Traces[tid]) => Acc(tid))
     \* it is no loss to take effect as late as anything depends on it
     \/ Traces[tid][l + 1].op \in {"end", "ret"} /\ (\E c \in calls : Effect(c)) /\ UNCHANGED l
=============================================================================

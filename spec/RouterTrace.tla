----------------------------- MODULE RouterTrace -----------------------------
(* Router driven by recorded traces.  IOEnv.PROP selects the observables that *)
(* are compared.                                                              *)
EXTENDS Router, TraceUtil, Json

VARIABLES tid, l
tvars == <<rvars, tid, l>>

Same(e, exp) ==
  CASE Prop = "C01" -> e.out.h = <<exp.h>>
    [] Prop = "C06" -> e.out.calls = exp.calls
    [] e.out.blind -> TRUE   \* the default not-found handler cannot be looked into
    [] Prop = "C04" -> SeqToSet(e.out.params) = exp.params
    [] Prop = "C05" -> /\ e.out.vm = exp.vm
                       /\ e.out.vmset = (exp.vm # <<>>)
                       /\ SeqToSet(e.out.env) = SeqToSet(e.env)

Ok(e) == LET exp == Outcome(routes, nf, e.m, e.p, e.ctx) IN
         IF Same(e, exp) THEN TRUE ELSE Rej(tid, l + 1, ToJson(exp))

Step(e) ==
  \/ e.op = "reg"     /\ Register(e.id, e.verb, e.pat)
  \/ e.op = "compile" /\ Compile
  \/ e.op = "nf"      /\ SetNotFound(e.id)
  \/ e.op = "req"     /\ Request /\ Ok(e)

TraceInit == RInit /\ tid \in 1..Len(Traces) /\ l = 0
TraceNext == /\ l < Len(Traces[tid])
             /\ Step(Traces[tid][l + 1])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

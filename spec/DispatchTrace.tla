---------------------------- MODULE DispatchTrace ----------------------------
(* Dispatch driven by recorded traces.                                        *)
(*   [op |-> "cfg", cfg]                                                      *)
(*   [op |-> "req", m, p, mux, env, pid, h, params]   a request enters a mux  *)
(*   [op |-> "obs", ev, mux, pos, path, method, pid, h, params, blind, how]   *)
EXTENDS Dispatch, TraceUtil, Json

VARIABLES tid, l
tvars == <<routes, nf, cfg, st, tid, l>>

Next1 == Traces[tid][l + 1]
MatchOf(e) == [pid |-> e.pid, h |-> e.h]
Superset(e, o) == LET got == PairsAsMap(e.params) IN
                  \A n \in DOMAIN o.params : n \in DOMAIN got /\ got[n] = o.params[n]
\* does the observation agree with what is expected, as far as the property goes?
Same(e, o) ==
  /\ e.ev = o.ev /\ e.mux = o.mux /\ e.pos = o.pos
  /\ CASE Prop = "C11" -> e.blind \/ o.ev \in {"end", "loop"} \/
                          (MatchOf(e) = o.match /\ (o.ev # "out" => Superset(e, o)))
       [] Prop = "C12" -> o.ev = "loop" \/
                          /\ e.path = o.path
                          /\ (~e.blind /\ o.ev # "end" => MatchOf(e) = o.match)
       [] Prop = "C13" -> o.ev = "h" => /\ e.how = (IF Plain(HForm(o.pos)) THEN "p" ELSE "c")
                                        /\ (~e.blind => MatchOf(e) = o.match /\ Superset(e, o))
Agree(o) == /\ Next1.op = "obs"
            /\ IF Same(Next1, o) THEN TRUE ELSE Rej(tid, l + 1, ToJson(o))

Advance == l' = l + 1 /\ UNCHANGED tid /\ (l' = Len(Traces[tid]) => Acc(tid))

More == l < Len(Traces[tid])
TraceNext ==
  \/ /\ st.mode # "idle" /\ Silent /\ UNCHANGED <<routes, nf, cfg, tid, l>>
  \/ /\ More /\ st.mode # "idle" /\ UNCHANGED <<routes, nf, cfg>> /\ Advance
     /\ \/ ShowIn /\ Agree(InObs)
        \/ ShowOut /\ Agree(OutObs)
        \/ ShowLeaf /\ Agree(LeafObs(Decide))
        \/ ShowLoop /\ Agree(LoopObs)
        \/ ShowEnd /\ Agree(EndObs)
  \/ /\ More /\ st.mode = "idle" /\ UNCHANGED <<routes, nf>> /\ Advance
     /\ \/ Next1.op = "cfg" /\ cfg' = Next1.cfg /\ UNCHANGED st
        \/ /\ Next1.op = "req" /\ UNCHANGED cfg
           /\ st' = Start(Next1.m, Next1.p, MatchOf(Next1), PairsAsMap(Next1.params), Next1.env, Next1.mux)

TraceInit == RInit /\ cfg = [muxes |-> <<>>, hs |-> <<>>] /\ st = Idle /\ tid \in 1..Len(Traces) /\ l = 0
=============================================================================

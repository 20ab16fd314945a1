----------------------------- MODULE RouterConc -----------------------------
(* The router of one mux while routes are added and requests served at once.  *)
(* A registration takes effect at one moment between its call and its return; *)
(* a request is routed by the table of one moment between its start and end.  *)
EXTENDS Router

VARIABLES calls,   \* registrations under way: <<id, verb, pat>> not yet in effect
          eff,     \* ids of those in effect that have not returned
          live     \* requests: number -> [m, p, ctx, from: routes known to be there]
cvars == <<rvars, calls, eff, live>>

CInit == RInit /\ calls = {} /\ eff = {} /\ live = <<>>
Call(id, verb, pat) == calls' = calls \cup {<<id, verb, pat>>} /\ UNCHANGED <<rvars, eff, live>>
Effect(c) == /\ c \in calls /\ Register(c[1], c[2], c[3])
             /\ calls' = calls \ {c} /\ eff' = eff \cup {c[1]} /\ UNCHANGED live
Return(id) == id \in eff /\ eff' = eff \ {id} /\ UNCHANGED <<rvars, calls, live>>
Begin(j, m, p, ctx) == /\ j \notin DOMAIN live
                       /\ live' = (j :> [m |-> m, p |-> p, ctx |-> ctx, from |-> Len(routes)]) @@ live
                       /\ UNCHANGED <<rvars, calls, eff>>
Tables(j) == live[j].from..Len(routes)
\* what comes of request j when it is routed by the first k routes; res: the results of all routes
Res(j) == Results(routes, live[j].p)
By(j, k, res) ==
  LET rts == SubSeq(routes, 1, k)  sub == SubSeq(res, 1, k)  sel == SelectWith(rts, sub, live[j].m) IN
  [h      |-> IF sel = 0 THEN 0 - nf - 1 ELSE rts[sel].id,
   params |-> AsPairs(IF sel = 0 THEN PairsAsMap(live[j].ctx) ELSE Override(PairsAsMap(live[j].ctx), AsMap(res[sel].binds))),
   vm     |-> IF sel = 0 THEN SortedMethods(RoutableWith(rts, sub)) ELSE <<>>]
Done(j) == j \in DOMAIN live /\ live' = [i \in DOMAIN live \ {j} |-> live[i]] /\ UNCHANGED <<rvars, calls, eff>>
=============================================================================

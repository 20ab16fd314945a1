------------------------------- MODULE Router -------------------------------
(* The router of one mux.  The state is the list of registered routes, in    *)
(* registration order, and the not-found handler; the whole behaviour of a   *)
(* request is a function of the two (naive first-match routing, which is the *)
(* programming model the package documents).                                 *)
EXTENDS Pattern

VARIABLES routes,   \* Seq([id, verb, pat])
          nf        \* id of the current not-found handler (0 = the default one)
rvars == <<routes, nf>>

StdMethods == <<"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE">>
StdSet == SeqToSet(StdMethods)

\* Which methods does a route registered with a given function accept?
Accepts(verb, m) ==
  CASE verb = "Handle"  -> TRUE
    [] verb = "Connect" -> m = "CONNECT"
    [] verb = "Delete"  -> m = "DELETE"
    [] verb = "Get"     -> m \in {"GET", "HEAD"}
    [] verb = "Head"    -> m = "HEAD"
    [] verb = "Options" -> m = "OPTIONS"
    [] verb = "Patch"   -> m = "PATCH"
    [] verb = "Post"    -> m = "POST"
    [] verb = "Put"     -> m = "PUT"
    [] verb = "Trace"   -> m = "TRACE"

\* res[i]: the result of matching route i's pattern against the path
Results(rts, p) == [i \in 1..Len(rts) |-> MatchPat(rts[i].pat, p)]
Eligible(rts, res, m) == {i \in 1..Len(rts) : res[i].ok /\ Accepts(rts[i].verb, m)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* index of the selected route, 0 if none
SelectWith(rts, res, m) == LET E == Eligible(rts, res, m) IN IF E = {} THEN 0 ELSE MinOf(E)
Select(rts, m, p) == SelectWith(rts, Results(rts, p), m)

\* The standard methods for which the request would have been routed.
RoutableWith(rts, res) == {m \in StdSet : SelectWith(rts, res, m) # 0}
SortedMethods(S) == SelectSeq(StdMethods, LAMBDA m : m \in S)

\* The calls user-defined patterns receive: <<"m", id>> Match, <<"r", id>> Run.
Plausible(r, p) == r.pat.k = "cust" /\ IsPfx(r.pat.pfx, p)
RECURSIVE AskedIn(_, _, _, _)
AskedIn(rts, i, upto, p) ==
  IF i > upto THEN <<>>
  ELSE (IF Plausible(rts[i], p) THEN << <<"m", rts[i].id>> >> ELSE <<>>) \o AskedIn(rts, i + 1, upto, p)
Calls(rts, sel, p) ==
  IF sel = 0 THEN AskedIn(rts, 1, Len(rts), p)
  ELSE AskedIn(rts, 1, sel, p) \o
       (IF rts[sel].pat.k = "cust" THEN << <<"r", rts[sel].id>> >> ELSE <<>>)

\* Everything there is to observe about one request.
Outcome(rts, notfound, m, p, inherited) ==
  LET res == Results(rts, p)
      sel == SelectWith(rts, res, m)
      vm  == IF sel = 0 THEN SortedMethods(RoutableWith(rts, res)) ELSE <<>>
  IN [h      |-> IF sel = 0 THEN -notfound - 1 ELSE rts[sel].id,
      params |-> AsPairs(IF sel = 0 THEN PairsAsMap(inherited)
                         ELSE Override(PairsAsMap(inherited), AsMap(res[sel].binds))),
      vm     |-> vm,
      calls  |-> Calls(rts, sel, p)]

RInit == routes = <<>> /\ nf = 0
Register(id, verb, pat) == routes' = Append(routes, [id |-> id, verb |-> verb, pat |-> pat]) /\ UNCHANGED nf
SetNotFound(id) == nf' = id /\ UNCHANGED routes
Compile == UNCHANGED rvars
Request == UNCHANGED rvars
=============================================================================

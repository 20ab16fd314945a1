------------------------------ MODULE RouterGen ------------------------------
(* Bounded exploration of Router: all route tables of up to MaxRoutes custom  *)
(* patterns over Prefixes.  Checks that the ways in which the property texts  *)
(* describe an outcome agree, and prints every maximal table as a stimulus.   *)
EXTENDS Router, GenUtil

CONSTANTS Prefixes, Verbs, Kinds, MaxRoutes, Paths, Methods

Init == RInit
Pats == [k : {"cust"}, pfx : Prefixes, m : Kinds, binds : {<<>>}]
Next == /\ Len(routes) < MaxRoutes
        /\ \E v \in Verbs, p \in Pats : Register(Len(routes) + 1, v, p)
        /\ (Len(routes') = MaxRoutes => Emit("TAB", routes'))

Naive(m, p) ==   \* scan in order, stop at the first acceptable route
  LET RECURSIVE Scan(_)
      Scan(i) == IF i > Len(routes) THEN 0
                 ELSE IF MatchPat(routes[i].pat, p).ok /\ Accepts(routes[i].verb, m) THEN i
                 ELSE Scan(i + 1)
  IN Scan(1)
Accumulated(p) ==  \* the union of the verbs of all matching routes
  {m \in StdSet : \E i \in 1..Len(routes) : MatchPat(routes[i].pat, p).ok /\ Accepts(routes[i].verb, m)}

SelectionIsFirstMatch == \A m \in Methods, p \in Paths : Select(routes, m, p) = Naive(m, p)
MethodsAreCounterfactual ==
  \A p \in Paths : RoutableWith(routes, Results(routes, p)) = Accumulated(p)
CallProtocol ==
  \A m \in Methods, p \in Paths :
    LET c == Calls(routes, Select(routes, m, p), p) IN
    /\ \A i, j \in 1..Len(c) : i < j => c[i] # c[j]                          \* each at most once
    /\ \A i, j \in 1..Len(c) : i < j /\ c[i][1] = "m" /\ c[j][1] = "m" => c[i][2] < c[j][2]
    /\ \A i \in 1..Len(c) : c[i][1] = "r" => i = Len(c) /\ c[i][2] = Select(routes, m, p)
    /\ Select(routes, m, p) = 0 => \A i \in 1..Len(c) : c[i][1] = "m"
=============================================================================

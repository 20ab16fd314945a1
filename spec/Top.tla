-------------------------------- MODULE Top ---------------------------------
(* The top-level package: functions that act on the default mux, and what a   *)
(* request to it meets.  Middleware: the default ones by name, recorders m1,  *)
(* m2, m3, and mp which panics.  A route: <<name, verb, pattern, kind>>; kind *)
(* is what the handler does: "ok", "panic", "late" (panics after writing),    *)
(* "404".                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES stack, routes, notfound
topvars == <<stack, routes, notfound>>

Default == <<"RequestID", "Logger", "Recoverer", "AutomaticOptions">>
TopInit == stack = Default /\ routes = <<>> /\ notfound = ""

First(s, x) == LET i == {i \in 1..Len(s) : s[i] = x} IN IF i = {} THEN 0 ELSE CHOOSE k \in i : \A j \in i : k <= j
Use(m) == stack' = Append(stack, m) /\ UNCHANGED <<routes, notfound>>
Insert(m, b, err) ==
  LET i == First(stack, b) IN
  /\ err = (i = 0)
  /\ stack' = IF i = 0 THEN stack ELSE SubSeq(stack, 1, i - 1) \o <<m>> \o SubSeq(stack, i, Len(stack))
  /\ UNCHANGED <<routes, notfound>>
Abandon(m, err) ==
  LET i == First(stack, m) IN
  /\ err = (i = 0)
  /\ stack' = IF i = 0 THEN stack ELSE SubSeq(stack, 1, i - 1) \o SubSeq(stack, i + 1, Len(stack))
  /\ UNCHANGED <<routes, notfound>>
Register(name, verb, pat, kind) == routes' = Append(routes, [name |-> name, verb |-> verb, pat |-> pat, kind |-> kind]) /\ UNCHANGED <<stack, notfound>>
NotFound(name) == notfound' = name /\ UNCHANGED <<stack, routes>>
\* another mux becomes the default one
Swap == stack' = <<>> /\ routes' = <<>> /\ notfound' = ""

----------------------------------------------------------------------------
\* sorted as Allow is
Methods == <<"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE">>
Of(verb) == CASE verb = "Get" -> {"GET", "HEAD"} [] verb = "Handle" -> {Methods[i] : i \in 1..9} [] verb = "Connect" -> {"CONNECT"} [] verb = "Delete" -> {"DELETE"}
              [] verb = "Head" -> {"HEAD"} [] verb = "Options" -> {"OPTIONS"} [] verb = "Patch" -> {"PATCH"} [] verb = "Post" -> {"POST"} [] verb = "Put" -> {"PUT"} [] verb = "Trace" -> {"TRACE"}
Fits(r, path) == r.pat = path \/ r.pat = "/*"
Hits(path, m) == {i \in 1..Len(routes) : Fits(routes[i], path) /\ (m \in Of(routes[i].verb) \/ routes[i].verb = "Handle")}
Valid(path) == {i \in 1..9 : Hits(path, Methods[i]) # {}}
\* the end of the stack
Route(m, path) ==
  LET h == Hits(path, m)  i == CHOOSE i \in h : \A j \in h : i <= j IN
  IF h = {} THEN [h |-> notfound, status |-> 404, panics |-> FALSE, allow |-> {}, recs |-> <<>>, lines |-> <<>>, vm |-> Valid(path)]
  ELSE [h |-> routes[i].name, panics |-> routes[i].kind \in {"panic", "late"}, status |-> CASE routes[i].kind = "panic" -> 0 [] routes[i].kind = "404" -> 404 [] OTHER -> 200,
        allow |-> {}, recs |-> <<>>, lines |-> <<>>, vm |-> {}]
Options == CHOOSE i \in 1..9 : Methods[i] = "OPTIONS"
\* from layer i on; id: the request has an ID; n: lines logged so far
RECURSIVE From(_, _, _, _, _)
From(i, m, path, id, n) ==
  IF i > Len(stack) THEN Route(m, path) ELSE
  LET x == stack[i] IN
  CASE x = "RequestID" -> From(i + 1, m, path, TRUE, n)
    [] x = "Logger" -> LET r == From(i + 1, m, path, id, n + 1) IN
         [r EXCEPT !.lines = << <<"Started", id, 0>> >> \o r.lines \o (IF r.panics THEN <<>> ELSE << <<"Returning", id, r.status>> >>)]
    [] x = "Recoverer" -> LET r == From(i + 1, m, path, id, n) IN
         IF r.panics THEN [r EXCEPT !.panics = FALSE, !.status = IF r.status = 0 THEN 500 ELSE r.status, !.lines = r.lines \o << <<"panic:", id, 0>> >>] ELSE r
    [] x = "AutomaticOptions" -> LET r == From(i + 1, m, path, id, n) IN
         IF m = "OPTIONS" /\ r.status = 404 /\ r.vm # {} THEN [r EXCEPT !.status = 200, !.allow = r.vm \cup {Options}] ELSE r
    [] x = "mp" -> [h |-> "", status |-> 0, panics |-> TRUE, allow |-> {}, recs |-> << <<"mp", id, n>> >>, lines |-> <<>>, vm |-> {}]
    [] OTHER -> LET r == From(i + 1, m, path, id, n) IN [r EXCEPT !.recs = << <<x, id, n>> >> \o r.recs]
Sorted(s) == SelectSeq(Methods, LAMBDA x : \E i \in s : Methods[i] = x)
Response(m, path) == LET r == From(1, m, path, FALSE, 0) IN
  [recs |-> r.recs, h |-> r.h, status |-> IF r.panics THEN 0 ELSE r.status, allow |-> IF r.panics THEN <<>> ELSE Sorted(r.allow), lines |-> r.lines, escaped |-> r.panics]
=============================================================================

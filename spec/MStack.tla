------------------------------- MODULE MStack -------------------------------
(* The middleware stack of one mux, and the requests going through it.        *)
(*   stack  the sequence of middleware                                        *)
(*   reqs   request -> what is left of it: the stack it started with, how far *)
(*          it got, its context                                               *)
(*   heap   the maps contexts refer to; a reference is an index, 0 is nil     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES stack, reqs, heap
mvars == <<stack, reqs, heap>>

Empty == [x \in {} |-> ""]
FirstIdx(s, x) == LET S == {i \in 1..Len(s) : s[i] = x} IN
                  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Before(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

MInit == stack = <<>> /\ reqs = Empty /\ heap = <<>>

(***************************************************************************)
(* Edits; err is whether the edit returned an error                        *)
(***************************************************************************)
Use(x) == stack' = Append(stack, x) /\ UNCHANGED <<reqs, heap>>
Insert(x, b, err) ==
  LET i == FirstIdx(stack, b) IN
  /\ err = (i = 0)
  /\ stack' = IF i = 0 THEN stack ELSE Before(stack, i, x)
  /\ UNCHANGED <<reqs, heap>>
Abandon(x, err) ==
  LET i == FirstIdx(stack, x) IN
  /\ err = (i = 0)
  /\ stack' = IF i = 0 THEN stack ELSE Without(stack, i)
  /\ UNCHANGED <<reqs, heap>>

(***************************************************************************)
(* Requests                                                                *)
(***************************************************************************)
\* env, params: references
StartWith(r, env, params) ==
  /\ r \notin DOMAIN reqs
  /\ reqs' = (r :> [snap |-> stack, pos |-> 0, dir |-> "in", env |-> env, params |-> params, save |-> <<0, 0>>]) @@ reqs
  /\ UNCHANGED stack
\* from an HTTP server: an empty context
StartPlain(r) == StartWith(r, 0, 0) /\ UNCHANGED heap
\* with maps of its own (sets of pairs; nil if empty)
StartC(r, env, params) ==
  /\ heap' = heap \o <<env>> \o <<params>>
  /\ StartWith(r, IF env = Empty THEN 0 ELSE Len(heap) + 1, IF params = Empty THEN 0 ELSE Len(heap) + 2)
\* from within request q, with the context q has got
StartNested(r, q) == StartWith(r, reqs[q].env, reqs[q].params) /\ UNCHANGED heap

MapAt(ref) == IF ref = 0 THEN Empty ELSE heap[ref]
CtxOf(q) == [env |-> MapAt(q.env), params |-> MapAt(q.params)]

\* What request r does next, and where: it enters the next layer, reaches the handler,
\* leaves a layer, or ends.
Next1(q) == CASE q.dir = "in"  /\ q.pos < Len(q.snap) -> [kind |-> "in",  id |-> q.snap[q.pos + 1]]
              [] q.dir = "in"  /\ q.pos = Len(q.snap) -> [kind |-> "h",   id |-> 0]
              [] q.dir = "out" /\ q.pos > 0           -> [kind |-> "out", id |-> q.snap[q.pos]]
              [] q.dir = "out" /\ q.pos = 0           -> [kind |-> "end", id |-> 0]
              [] q.dir = "dead"                       -> [kind |-> "end", id |-> 1]
\* bind: what routing bound on the way to the handler
Advance1(r, bind) ==
  LET q == reqs[r]  n == Next1(q) IN
  /\ CASE n.kind = "in"  -> reqs' = [reqs EXCEPT ![r].pos = @ + 1] /\ UNCHANGED heap
       [] n.kind = "h"   ->    \* the handler gets a copy of the context
            IF bind = Empty THEN reqs' = [reqs EXCEPT ![r].dir = "out", ![r].save = <<q.env, q.params>>] /\ UNCHANGED heap
            ELSE /\ heap' = Append(heap, bind @@ MapAt(q.params))
                 /\ reqs' = [reqs EXCEPT ![r].dir = "out", ![r].params = Len(heap) + 1, ![r].save = <<q.env, Len(heap) + 1>>]
       [] n.kind = "out" ->
            /\ reqs' = [reqs EXCEPT ![r].pos = @ - 1,
                          ![r].env = IF q.pos = Len(q.snap) THEN q.save[1] ELSE @,
                          ![r].params = IF q.pos = Len(q.snap) THEN q.save[2] ELSE @]
            /\ UNCHANGED heap
       [] n.kind = "end" -> reqs' = [x \in DOMAIN reqs \ {r} |-> reqs[x]] /\ UNCHANGED heap
  /\ UNCHANGED stack

(***************************************************************************)
(* What a layer may do to the context of its request                       *)
(***************************************************************************)
Put(ref, k, v, set) ==   \* set(newref): the new reqs
  IF ref = 0 THEN heap' = Append(heap, k :> v) /\ reqs' = set[Len(heap) + 1]
  ELSE heap' = [heap EXCEPT ![ref] = (k :> v) @@ @] /\ reqs' = set[ref]
Refs == 0..(Len(heap) + 1)
EnvPut(r, k, v) == Put(reqs[r].env, k, v, [x \in Refs |-> [reqs EXCEPT ![r].env = x]]) /\ UNCHANGED stack
ParPut(r, k, v) == Put(reqs[r].params, k, v, [x \in Refs |-> [reqs EXCEPT ![r].params = x]]) /\ UNCHANGED stack
EnvNew(r, k, v) == heap' = Append(heap, k :> v) /\ reqs' = [reqs EXCEPT ![r].env = Len(heap) + 1] /\ UNCHANGED stack
ParNew(r, k, v) == heap' = Append(heap, k :> v) /\ reqs' = [reqs EXCEPT ![r].params = Len(heap) + 1] /\ UNCHANGED stack
CtxNil(r) == reqs' = [reqs EXCEPT ![r].env = 0, ![r].params = 0] /\ UNCHANGED <<heap, stack>>
Panic(r) == reqs' = [reqs EXCEPT ![r].dir = "dead"] /\ UNCHANGED <<heap, stack>>
Act(r, a, k, v) ==
  CASE a = "envput" -> EnvPut(r, k, v) [] a = "parput" -> ParPut(r, k, v)
    [] a = "envnew" -> EnvNew(r, k, v) [] a = "parnew" -> ParNew(r, k, v)
    [] a = "nil" -> CtxNil(r) [] a = "panic" -> Panic(r)
=============================================================================

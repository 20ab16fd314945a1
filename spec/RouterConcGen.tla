---------------------------- MODULE RouterConcGen ----------------------------
(* Two threads that register, compile and request at once: all programs of up *)
(* to MaxOps operations each, in all interleavings; every program is printed. *)
EXTENDS RouterConc, GenUtil

CONSTANTS MaxOps, MaxPre
VARIABLES prog,    \* two sequences of operations
          at,      \* how far the threads are
          seen     \* table sizes requests were routed by, in order of completion
gvars == <<cvars, prog, at, seen>>

Pat(s) == [k |-> "str", s |-> s]
Ops == {[op |-> "reg", verb |-> "Get", pat |-> Pat("/a")], [op |-> "reg", verb |-> "Handle", pat |-> Pat("/*")],
        [op |-> "reg", verb |-> "Post", pat |-> Pat("/:x")], [op |-> "compile", verb |-> "", pat |-> Pat("")],
        [op |-> "req", verb |-> "GET", pat |-> Pat("/a")], [op |-> "req", verb |-> "POST", pat |-> Pat("/b")]}
Progs == UNION {[1..n -> Ops] : n \in 1..MaxOps}
Regs(p) == Cardinality({i \in DOMAIN p : p[i].op = "reg"})
Rank(p) == Len(p)
Useful(a, b) == Regs(a) + Regs(b) > 0 /\ ((\E i \in DOMAIN a : a[i].op = "req") \/ (\E i \in DOMAIN b : b[i].op = "req")) /\ Rank(a) >= Rank(b)
Init == /\ \E a, b \in Progs, pre \in 0..MaxPre : Useful(a, b) /\ prog = <<a, b>> /\ nf = 1
                    /\ routes = [i \in 1..pre |-> [id |-> 90 + i, verb |-> IF i = 1 THEN "Get" ELSE "Handle", pat |-> Pat(IF i = 1 THEN "/b" ELSE "/:y")]]
        /\ calls = {} /\ eff = {} /\ live = <<>> /\ at = <<0, 0>> /\ seen = <<>>
        /\ Emit("STIM", [prog |-> prog, pre |-> Len(routes)])
Id(t, i) == 10 * t + i
Same == UNCHANGED <<prog, seen>>
Next == \E t \in 1..2 :
  LET i == at[t] \div 2 + 1  busy == at[t] % 2 = 1 IN
  /\ i <= Len(prog[t])
  /\ LET o == prog[t][i] IN
     \/ ~busy /\ o.op = "reg" /\ Call(Id(t, i), o.verb, o.pat) /\ at' = [at EXCEPT ![t] = @ + 1] /\ Same
     \/ busy /\ o.op = "reg" /\ Effect(<<Id(t, i), o.verb, o.pat>>) /\ UNCHANGED at /\ Same
     \/ busy /\ o.op = "reg" /\ Return(Id(t, i)) /\ at' = [at EXCEPT ![t] = @ + 1] /\ Same
     \/ o.op = "compile" /\ at' = [at EXCEPT ![t] = @ + 2] /\ UNCHANGED cvars /\ Same
     \/ ~busy /\ o.op = "req" /\ Begin(Id(t, i), o.verb, o.pat.s, <<>>) /\ at' = [at EXCEPT ![t] = @ + 1] /\ Same
     \/ busy /\ o.op = "req" /\ at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
             /\ \E k \in Tables(Id(t, i)) : seen' = Append(seen, [t |-> t, i |-> i, k |-> k, from |-> live[Id(t, i)].from, h |-> By(Id(t, i), k, Res(Id(t, i))).h])
             /\ Done(Id(t, i))
\* what has returned stays visible, in the order of the table
Grows == [][Len(routes') >= Len(routes) /\ SubSeq(routes', 1, Len(routes)) = routes]_gvars
Visible == \A t \in 1..2 : \A i \in 1..(at[t] \div 2) :
  prog[t][i].op = "reg" => \E k \in 1..Len(routes) : routes[k].id = Id(t, i)
\* a request sees everything its own thread registered before
OwnWrites == \A n \in 1..Len(seen) : \A i \in 1..(seen[n].i - 1) :
  prog[seen[n].t][i].op = "reg" => \E k \in 1..seen[n].k : routes[k].id = Id(seen[n].t, i)
=============================================================================

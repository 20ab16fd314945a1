------------------------------- MODULE TopGen -------------------------------
(* All short histories of calls of top-level functions; each is printed as a  *)
(* stimulus (the requests are added by the orchestration, all of Requests).   *)
EXTENDS Top, GenUtil

CONSTANTS MaxOps, Part
VARIABLES hist
vars == <<topvars, hist>>
Do(x) == hist' = Append(hist, x)
Mws == {Default[i] : i \in 1..4} \cup {"m1", "mp"}
Verbs == {"Handle", "Connect", "Delete", "Get", "Head", "Options", "Patch", "Post", "Put", "Trace"}
Kinds == {"ok", "panic"}
Init == TopInit /\ hist = <<>>
Name(p) == p \o ToString(Len(hist))
Next ==
  /\ Len(hist) < MaxOps
  /\ IF Part = "stack"
     THEN \/ \E m \in Mws : Use(m) /\ Do([op |-> "use", m |-> m])
          \/ \E m \in {"m1", "mp"}, b \in Mws : Insert(m, b, First(stack, b) = 0) /\ Do([op |-> "insert", m |-> m, b |-> b])
          \/ \E m \in Mws : Abandon(m, First(stack, m) = 0) /\ Do([op |-> "abandon", m |-> m])
          \/ Swap /\ Do([op |-> "swap"])
     ELSE \/ \E v \in Verbs, p \in {"/a", "/*"}, k \in Kinds : Register(Name("h"), v, p, k) /\ Do([op |-> "route", name |-> Name("h"), verb |-> v, pat |-> p, kind |-> k, form |-> "c"])
          \/ NotFound(Name("n")) /\ Do([op |-> "notfound", name |-> Name("n"), form |-> "c"])
          \/ Swap /\ Do([op |-> "swap"])
  /\ Emit("STIM", hist')
----------------------------------------------------------------------------
Answers == {Response(Methods[i], "/a") : i \in 1..9}
\* as long as the default layers are there and nothing was put before them, panics do not get out
Safe == (\E i \in 1..Len(stack) : stack[i] = "Recoverer" /\ \A j \in 1..(i - 1) : stack[j] # "mp") => \A r \in Answers : ~r.escaped
\* every request is answered, and every answer is logged
Answered == \A r \in Answers : r.escaped \/ r.status \in {200, 404, 500}
Logged == Len(stack) >= 4 /\ SubSeq(stack, 1, 4) = Default =>
            \A r \in Answers : r.lines[1] = <<"Started", TRUE, 0>> /\ r.lines[Len(r.lines)] = <<"Returning", TRUE, r.status>>
\* an OPTIONS request is never turned down where there is something to be had
Informed == Len(stack) >= 4 /\ SubSeq(stack, 1, 4) = Default /\ Valid("/a") # {} /\ ~(\E i \in 1..Len(stack) : stack[i] = "mp")
              => LET r == Response("OPTIONS", "/a") IN r.status # 404
=============================================================================

----------------------------- MODULE MStackGen -----------------------------
(* Bounded exploration of MStack: every history of edits and (possibly        *)
(* overlapping) requests up to Depth steps.  Checks the design on the way and *)
(* prints every history as a stimulus.                                        *)
EXTENDS MStack, GenUtil

CONSTANTS Layers, MaxReqs, Depth, EditsOnly

VARIABLES hist
gvars == <<mvars, hist>>

H(op, x, b, r) == [op |-> op, x |-> x, b |-> b, r |-> r]
Log(h) == hist' = Append(hist, h) /\ (Len(hist') = Depth => Emit("HIST", hist'))

Started == {hist[i].r : i \in {j \in 1..Len(hist) : hist[j].op = "start"}}
Init == MInit /\ hist = <<>>
Edit == \/ \E x \in Layers : Use(x) /\ Log(H("use", x, 0, 0))
        \/ \E x, b \in Layers : Insert(x, b, FirstIdx(stack, b) = 0) /\ Log(H("insert", x, b, 0))
        \/ \E x \in Layers : Abandon(x, FirstIdx(stack, x) = 0) /\ Log(H("abandon", x, 0, 0))
\* a request runs up to its handler, or from there to its end
ToHandler(r) == LET r2 == [snap |-> stack, pos |-> Len(stack), dir |-> "in", env |-> 0, params |-> 0] IN
                reqs' = (r :> r2) @@ reqs /\ UNCHANGED <<stack, heap>>
Begin == ~EditsOnly /\ \E r \in 1..MaxReqs : r = Cardinality(Started) + 1 /\ ToHandler(r) /\ Log(H("start", 0, 0, r))
Finish == \E r \in DOMAIN reqs, how \in {"finish", "panic"} :
             /\ (how = "panic" => r = 1)
             /\ reqs' = [x \in DOMAIN reqs \ {r} |-> reqs[x]] /\ UNCHANGED <<stack, heap>>
             /\ Log(H(how, 0, 0, r))
Next == Len(hist) < Depth /\ (Edit \/ Begin \/ Finish)

\* A request keeps the stack it started with: the edits up to its start, and only those.
RECURSIVE Replay(_, _)
Replay(h, n) ==
  IF n = 0 THEN <<>> ELSE
  LET s == Replay(h, n - 1)  e == h[n] IN
  CASE e.op = "use" -> Append(s, e.x)
    [] e.op = "insert"  -> LET i == FirstIdx(s, e.b) IN IF i = 0 THEN s ELSE Before(s, i, e.x)
    [] e.op = "abandon" -> LET i == FirstIdx(s, e.x) IN IF i = 0 THEN s ELSE Without(s, i)
    [] OTHER -> s
StartOf(r) == CHOOSE i \in 1..Len(hist) : hist[i].op = "start" /\ hist[i].r = r
KeepsItsStack == \A r \in DOMAIN reqs : reqs[r].snap = Replay(hist, StartOf(r))
=============================================================================

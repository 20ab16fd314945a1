---------------------------- MODULE PatternTrace ----------------------------
(* What one pattern matched, among a set of paths, against Pattern.           *)
(*   [op |-> "paths", paths]     the paths used from now on                   *)
(*   [op |-> "pat", pat, mux, direct]                                         *)
(* mux lists <<path, params>> for the requests a mux with that only route     *)
(* served with it, direct the same for the parsed pattern used by itself.     *)
EXTENDS Pattern, TraceUtil, Json

VARIABLES paths, tid, l
tvars == <<paths, tid, l>>

\* the matches as a set of <<path, set of bindings>>
Expected(p, ps) ==
  LET pp == IF p.k = "str" THEN ParseStr(p.s) ELSE p
      M(x) == IF p.k = "str" THEN MatchParsedStr(pp, x) ELSE MatchPat(p, x)
      res == [i \in 1..Len(ps) |-> M(ps[i])]
  IN {<<ps[i], AsPairs(AsMap(res[i].binds))>> : i \in {j \in 1..Len(ps) : res[j].ok}}
Got(s) == {<<s[i][1], SeqToSet(s[i][2])>> : i \in 1..Len(s)}
Diff(a, b) == ToJson(<<"unexpected", a \ b, "missing", b \ a>>)

Ok(e) == LET exp == Expected(e.pat, paths) IN
         IF Got(e.mux) # exp THEN Rej(tid, l + 1, Diff(Got(e.mux), exp))
         ELSE IF Got(e.direct) # exp THEN Rej(tid, l + 1, Diff(Got(e.direct), exp))
         ELSE TRUE

Step(e) == \/ e.op = "paths" /\ paths' = e.paths
           \/ e.op = "pat" /\ UNCHANGED paths /\ Ok(e)

TraceInit == paths = <<>> /\ tid \in 1..Len(Traces) /\ l = 0
TraceNext == /\ l < Len(Traces[tid])
             /\ Step(Traces[tid][l + 1])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

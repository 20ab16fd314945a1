--------------------------- MODULE ListenerTrace ---------------------------
(* Listener driven by recorded traces.                                        *)
(*  [op |-> "call", i, k, c]  [op |-> "ret", i, res, n]                       *)
(*  [op |-> "uaccept", i, c]  [op |-> "uaccerr", i, res]                      *)
(*  [op |-> "uread", i, n, res]  [op |-> "usrd", i, res]                      *)
(*  [op |-> "uclose", c, res]  [op |-> "quiet"]  [op |-> "panic", i]          *)
(*  [op |-> "misc", i, ok]  [op |-> "foreign", ok]                            *)
(* res is "" for no error and the text of the error otherwise; the errors of  *)
(* the world outside are all different from those of the package.             *)
EXTENDS Listener, TraceUtil, Json

VARIABLES tid, l
tvars == <<lvars, tid, l>>

StrictProp(p) == Prop = p

Ok(cond) == cond
Res(i, e) ==
  LET x == Expect(i)  k == O[i].k IN
  CASE k = "accept" /\ O[i].res = "" -> (Prop = "C23" => e.res = "")
    [] k = "accept" /\ O[i].res = "refused" -> (Prop = "C23" => e.res # "")
    [] k = "accept" -> (Prop = "C23" => e.res = x)
    [] k = "read" -> (Prop \in {"C22", "C24"}) =>
          IF x = "closed" THEN e.res # "" ELSE e.res = x /\ (C[O[i].c].st # "dead" => e.n = O[i].n)
    [] k = "close" /\ x = "closed" -> (Prop \in {"C23"}) => e.res # ""
    [] k = "close" -> (Prop \in {"C23", "C24"}) => e.res = x
    [] k = "disown" /\ x = "error" -> (Prop = "C24") => e.res # ""
    [] k = "disown" -> (Prop = "C24") => e.res = ""
    [] k = "srd" -> (Prop = "C24") => e.res = x
    [] OTHER -> TRUE

\* what accept answered must agree with what the package did to the connection
AccAgrees(i, e) == O[i].k = "accept" /\ O[i].ph = "lin" => ((O[i].res = "") <=> (e.res = ""))

UClose(e) ==
  \/ UCloseOwed(e.c, e.res)
  \/ \E i \in DOMAIN O : UClosePass(i, e.c, e.res)
  \* demands of other properties
  \/ /\ Prop # "C21" /\ Open(e.c)
     /\ C' = [C EXCEPT ![e.c].st = "dead", ![e.c].ures = e.res] /\ O' = Forget(O, {e.c}) /\ UNCHANGED <<mode, drain>>
  \/ /\ Prop # "C23" /\ C[e.c].st \in {"dead", "refused"} /\ ~C[e.c].owed /\ UNCHANGED lvars
  \/ /\ Prop # "C24" /\ C[e.c].st = "own" /\ UNCHANGED lvars
  \/ /\ Prop # "C23" /\ C[e.c].st = "raw"
     /\ C' = [C EXCEPT ![e.c].st = "refused"]
     /\ O' = [i \in DOMAIN O |-> IF O[i].k = "accept" /\ O[i].c = e.c THEN [O[i] EXCEPT !.ph = "lin", !.res = "refused"] ELSE O[i]]
     /\ UNCHANGED <<mode, drain>>

Step(e) ==
  \/ e.op = "call" /\ Call(e.i, e.k, e.c)
  \/ e.op = "ret" /\ Res(e.i, e) /\ (Prop # "C23" => AccAgrees(e.i, e)) /\ Return(e.i)
  \/ e.op = "uaccept" /\ UAccept(e.i, e.c)
  \/ e.op = "uaccerr" /\ UAcceptErr(e.i, e.res)
  \/ e.op = "uread" /\ URead(e.i, e.n, e.res)
  \/ e.op = "usrd" /\ USetDeadline(e.i, e.res)
  \/ e.op = "uclose" /\ UClose(e)
  \/ e.op = "quiet" /\ Quiet
  \* every other method reaches the underlying connection; foreign connections are refused
  \/ e.op = "misc" /\ (Prop = "C24" => e.ok) /\ UNCHANGED lvars
  \/ e.op = "foreign" /\ (Prop = "C24" => e.ok) /\ UNCHANGED lvars
  \/ e.op = "panic" /\ Prop # "C20" /\ O' = [x \in DOMAIN O \ {e.i} |-> O[x]] /\ UNCHANGED <<mode, drain, C>>
  \/ e.op \in {"hang", "crash"} /\ Prop # "C20" /\ UNCHANGED lvars

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ LInit(Traces[tid][1].mode)
TraceNext ==
  \/ /\ l < Len(Traces[tid]) /\ Step(Traces[tid][l + 1])
     /\ l' = l + 1 /\ UNCHANGED tid
     /\ Reached(tid, l')
     /\ (l' = Len(Traces[tid]) => Acc(tid))
  \/ /\ l < Len(Traces[tid]) /\ Internal /\ UNCHANGED <<tid, l>>
=============================================================================

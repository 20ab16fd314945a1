----------------------------- MODULE BindTrace -----------------------------
(* Bind driven by recorded traces.                                            *)
(*  start env pid ppid passed dir   env: <<name, value>>s, passed: [fd, addr] *)
(*  fds cloexec n       sniff res      flag dflt res     parse s              *)
(*  sock s res net addr host port (dsock: the flag's value)   ready           *)
(*  end how acks made                                                         *)
EXTENDS Bind, TraceUtil, Json

VARIABLES tid, l
tvars == <<bvars, tid, l>>
StrictProp(p) == p = Prop
SetOf(s) == {s[i] : i \in 1..Len(s)}
PairFun(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = n][2]]
FdFun(s) == [n \in {s[i].fd : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].fd = n].addr]
Step(e) ==
  IF l = 0 THEN e.op = "start" /\ Start(PairFun(e.env), e.pid, e.ppid, FdFun(e.passed), e.dir) ELSE
  CASE e.op = "fds" -> Descriptors(SetOf(e.cloexec), e.n)
    [] e.op = "sniff" -> Sniff(e.res)
    [] e.op = "flag" -> WithFlag(e.dflt, e.res)
    [] e.op = "parse" -> Parse(e.s)
    [] e.op = "sock" -> Socket(e.s, e)
    [] e.op = "dsock" -> e.s = flag /\ Default(e)
    [] e.op = "ready" -> Ready
    [] e.op = "end" -> End(e.how, e.acks, SetOf(e.made))
    [] OTHER -> FALSE
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 0
             /\ env = <<>> /\ pid = 0 /\ ppid = 0 /\ passed = <<>> /\ dir = ""
             /\ flag = "" /\ opened = {} /\ ready = FALSE /\ dead = FALSE
TraceNext == /\ l < Len(Traces[tid]) /\ Step(Traces[tid][l + 1])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ Reached(tid, l')
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

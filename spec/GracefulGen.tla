---------------------------- MODULE GracefulGen ----------------------------
(* Bounded exploration of Graceful: something is asked for, a signal arrives  *)
(* or time passes only when nothing else can move; every transition of that   *)
(* graph is printed as a stimulus.                                            *)
EXTENDS Graceful, GenUtil

CONSTANTS Step,     \* units that pass at once
          Horizon,  \* how many times
          MaxReq, Late

VARIABLES hist, ops
vars == <<gvars, hist, ops>>
all(p) == TRUE

Rel(t) == IF t < 0 THEN 99 ELSE IF now - t > 9 THEN 9 ELSE now - t
StateView == <<mode, drain, C, {<<O[i].k, O[i].c, O[i].ph>> : i \in DOMAIN O}, now \div Step, dk, to, queue, Rel(last), {<<t.at - now, t.sig>> : t \in timers},
               R, hooks, ls>>

CanLin == (\E i \in DOMAIN O : ~(O[i].k \in {"accept", "read"} /\ O[i].ph = "call") /\ O[i].k \notin {"drain", "drainall", "wait", "shutdown", "now"})
Moving ==
  \/ CanLin \/ queue # <<>> \/ hooks.in # {}
  \/ \E c \in DOMAIN C : C[c].owed \/ C[c].st = "raw" \/ (Shutting # {} /\ IdleC(c)) \/ (Pending("drainall") # {} /\ Open(c))
  \/ Requests # {} /\ (~PreDone \/ \E l \in DOMAIN ls : ls[l] = "open")
  \/ \E r \in R : r.ph = "new" \/ (r.ph = "closing" /\ Gone)
  \/ Closed # {} /\ ~PostDone
  \/ \E i \in DOMAIN O : i < 1000 /\ O[i].k \in {"wait", "shutdown", "now"} /\ GMayReturn(i)
Ready == ~Moving /\ drain # 1 /\ ~fresh
H(a, c, s) == hist' = Append(hist, [a |-> a, c |-> c, s |-> s])
Out == Emit("STIM", hist')
NewId == ops + 1
Handed == {c \in DOMAIN C : C[c].st \in {"open", "dead", "own"}}

Init ==
  /\ mode = "auto" /\ drain = 0 /\ now = 0 /\ queue = <<>> /\ last = 0 - 1 /\ timers = {} /\ R = {} /\ psig = "?"
  /\ dk \in {0, 5} /\ to \in {0, 6} /\ regs = {"int"} /\ fresh = FALSE
  /\ hooks = [NoHooks EXCEPT !.pre = <<1, 2>>, !.post = <<3, 4>>]
  /\ ls = 1 :> "open" @@ 2 :> "open" /\ O = <<>> /\ ops = 0
  /\ C \in [{1, 2} -> {[NewConn EXCEPT !.st = s, !.busy = b] : s \in {"open", "own"}, b \in BOOLEAN}]
  /\ \A c \in {1, 2} : C[c].st = "own" => ~C[c].busy
  /\ hist = <<[a |-> "dk", c |-> dk, s |-> ""], [a |-> "to", c |-> to, s |-> ""]>>
            \o [c \in 1..2 |-> [a |-> IF C[c].st = "own" THEN "disown" ELSE IF C[c].busy THEN "use" ELSE "idle", c |-> c, s |-> ""]]
Ask ==
  /\ Ready /\ ops < 40
  /\ \/ \E k \in {"use", "idle", "close"}, c \in {x \in DOMAIN C : Open(x)} :
          GCall(NewId, k, c, "") /\ H(k, c, "")
     \/ Cardinality(Requests) < MaxReq /\ \E k \in {"shutdown", "now"} : Pending(k) = {} /\ GCall(NewId, k, 0, "") /\ H(k, 0, "")
     \/ Pending("wait") = {} /\ GCall(NewId, "wait", 0, "") /\ H("wait", 0, "")
     \/ Late /\ 3 \notin DOMAIN ls /\ GCall(NewId, "wrap", 3, "") /\ H("wrap", 3, "")
  /\ ops' = ops + 1 /\ Out
World ==
  \/ Ready /\ Cardinality(Requests) < MaxReq /\ Raise("int") /\ H("raise", 0, "int") /\ Out /\ UNCHANGED ops
  \/ Ready /\ now < Step * Horizon /\ now' = now + Step
     /\ LET due == {t \in timers : t.at <= now + Step} IN R' = Expired(due, R) /\ timers' = timers \ due
     /\ H("tick", Step, "") /\ Out /\ UNCHANGED <<lvars, dk, to, regs, queue, last, fresh, hooks, psig, ls, ops>>
  \/ /\ \/ \E c \in DOMAIN C : UCloseOwed(c, "") /\ UNCHANGED <<rest, R, hooks, psig, ls>>
        \/ \E l \in DOMAIN ls : ls[l] = "open" /\ UListenerClose(l)
        \/ PreDone = FALSE /\ \E h \in {1, 2}, g \in Sigs : PreHook(h, g)
        \/ PostDone = FALSE /\ \E h \in {3, 4}, g \in Sigs : PostHook(h, g)
        \/ \E h \in hooks.in : HookEnd(h)
     /\ UNCHANGED <<hist, ops>>
Move == /\ \/ GInternal
           \/ \E i \in DOMAIN O : i < 1000 /\ GReturn(i)
        /\ UNCHANGED <<hist, ops>>
Still == ~Moving /\ (drain = 1 \/ fresh) /\ GQuiet /\ UNCHANGED <<hist, ops>>
Next == Ask \/ World \/ Move \/ Still

\* ---- the design ----
OwnStays == [][\A c \in DOMAIN C : C[c].st = "own" => C'[c].st = "own"]_vars
HooksBefore == [][\A c \in DOMAIN C : (Open(c) /\ C'[c].st = "dead" /\ Pending("close") = {}) => PreDone /\ Requests # {}]_vars
HooksAfter == hooks.npost > 0 /\ ~Late => \A c \in DOMAIN C : ~Open(c)

\* two signals at least a window apart, without a timeout, never force anything
Kicks == \A r \in R : r.force /\ r.sig # "" => dk # 0 \/ to # 0
Completes == (Ready /\ Requests # {} /\ \A c \in DOMAIN C : ~Open(c)) => Complete /\ Pending("wait") \cup Pending("shutdown") = {}
=============================================================================

------------------------------ MODULE Graceful ------------------------------
(* Package graceful: hooks, signals, the double kick, the timeout, waiting.   *)
(* The connections and what may be done to them are those of Listener; every  *)
(* request for a shutdown (a call, a signal, an expired timeout) is a drain   *)
(* of the listeners, forced or not, between the pre- and the post-hooks.      *)
(* Time is counted in units which pass only when everything is quiet.         *)
EXTENDS Listener

VARIABLES now, dk, to,   \* time; double-kick window and timeout (0: off)
          regs,          \* signals asked for
          queue,         \* signals that have arrived: [sig, at]
          last,          \* when the previous signal arrived (-1: never)
          timers,        \* [at, sig]
          fresh,         \* a signal was raised since everything was quiet
          R,             \* requests: {[force, sig, ph]}; ph: "new", "closing", "closed"
          hooks,         \* [pre, post: registered; late: may run; npre, npost: how many have run; in: running; pin: of those, pre-hooks; asleep: waiting for time]
          psig,          \* the signal the pre-hooks were given ("?": not known)
          ls             \* listeners: id -> "open", "closed"
gvars == <<lvars, now, dk, to, regs, queue, last, timers, fresh, R, hooks, psig, ls>>
rest == <<now, dk, to, regs, queue, last, timers, fresh>>

NoHooks == [pre |-> <<>>, post |-> <<>>, late |-> {}, npre |-> 0, npost |-> 0, in |-> {}, pin |-> {}, asleep |-> {}]
GInit(m) == /\ LInit(m) /\ now = 0 /\ dk = 0 /\ to = 0 /\ regs = {} /\ queue = <<>> /\ last = 0 - 1 /\ timers = {} /\ fresh = FALSE
            /\ R = {} /\ hooks = NoHooks /\ psig = "?" /\ ls = <<>>

(* Requests for a shutdown are told apart by what matters: whether they force, *)
(* the signal ("": a call), and how far they are.                             *)
Requests == R
NewR(R1, force, sig) == IF \E r \in R1 : r.force = force /\ r.sig = sig THEN R1 ELSE R1 \cup {[force |-> force, sig |-> sig, ph |-> "new"]}
Sigs == {r.sig : r \in R}
PreDone  == hooks.npre = Len(hooks.pre) /\ hooks.pin = {}
PostDone == hooks.npost = Len(hooks.post) /\ hooks.in \ hooks.pin = {}
Begun  == {r \in R : r.ph # "new"}
Closed == {r \in R : r.ph = "closed"}
OpOf(r) == IF r.force THEN 1001 ELSE 1000

----------------------------------------------------------------------------
\* calls that take effect at once; the others wait (shutdown, now, wait) or are Listener's
Settings == {"dk", "to", "addsig", "resetsig", "prehook", "posthook", "wrap"}
GCall(i, k, c, s) ==
  CASE k \in {"dk", "to", "addsig", "resetsig", "prehook", "posthook"} ->
         /\ i \notin DOMAIN O /\ O' = (i :> [NewOp(k, c) EXCEPT !.res = s]) @@ O
         /\ UNCHANGED <<mode, drain, C, rest, R, hooks, psig, ls>>
    \* a listener that arrives during a shutdown is drained, too
    [] k = "wrap" -> /\ ls' = (c :> "open") @@ ls
                     /\ O' = IF Begun = {} THEN (i :> NewOp(k, 0)) @@ O ELSE (i :> NewOp(k, 0)) @@ ((2000 + c) :> NewOp("drain", 0)) @@ O
                     /\ drain' = IF drain = 2 THEN 1 ELSE drain
                     /\ UNCHANGED <<mode, C, rest, R, hooks, psig>>
    [] k \in {"shutdown", "now"} -> R' = NewR(R, k = "now", "") /\ Call(i, k, 0) /\ UNCHANGED <<rest, hooks, psig, ls>>
    [] OTHER -> Call(i, k, c) /\ UNCHANGED <<rest, R, hooks, psig, ls>>

\* a setting takes effect (negative ones never do)
LinSet(i) ==
  /\ O[i].ph = "call" /\ O[i].k \in {"dk", "to", "addsig", "resetsig"}
  /\ O' = [O EXCEPT ![i].ph = "lin"]
  /\ LET k == O[i].k  c == O[i].c IN
     /\ dk' = IF k = "dk" /\ c >= 0 THEN c ELSE dk
     /\ to' = IF k = "to" /\ c >= 0 THEN c ELSE to
     /\ regs' = CASE k = "addsig" -> regs \cup {O[i].res} [] k = "resetsig" -> {} [] OTHER -> regs
  /\ UNCHANGED <<mode, drain, C, now, queue, last, timers, fresh, R, hooks, psig, ls>>
\* a hook is registered; whether it runs is only certain if that was before it was needed
LinHook(i) ==
  /\ O[i].ph = "call" /\ O[i].k \in {"prehook", "posthook"}
  /\ O' = [O EXCEPT ![i].ph = "lin"]
  /\ LET h == O[i].c IN
     hooks' = CASE O[i].k = "prehook" /\ R = {} /\ queue = <<>> -> [hooks EXCEPT !.pre = Append(@, h)]
                [] O[i].k = "posthook" /\ Closed = {} -> [hooks EXCEPT !.post = Append(@, h)]
                [] OTHER -> [hooks EXCEPT !.late = @ \cup {h}]
  /\ UNCHANGED <<mode, drain, C, rest, R, psig, ls>>

\* the operating system
Raise(s) ==
  \* the system does not queue signals: one that arrives while another is pending may be lost
  /\ fresh' = TRUE
  /\ \E lost \in (IF fresh THEN BOOLEAN ELSE {FALSE}) :
       queue' = IF s \in regs /\ ~lost THEN Append(queue, [sig |-> s, at |-> now]) ELSE queue
  /\ UNCHANGED <<lvars, now, dk, to, regs, last, timers, R, hooks, psig, ls>>
TakeSignal ==
  /\ queue # <<>>
  /\ LET q == Head(queue)  d == q.at - last
         kick == dk # 0 /\ last >= 0 /\ d < dk
     IN \E force \in (IF dk # 0 /\ last >= 0 /\ d = dk THEN BOOLEAN ELSE {kick}) :
          /\ R' = NewR(R, force, q.sig)
          /\ timers' = IF to # 0 /\ ~force THEN timers \cup {[at |-> q.at + to, sig |-> q.sig]} ELSE timers
          /\ last' = q.at /\ queue' = Tail(queue)
  /\ UNCHANGED <<lvars, now, dk, to, regs, fresh, hooks, psig, ls>>
\* time passes
RECURSIVE Expired(_, _)
Expired(ts, R1) == IF ts = {} THEN R1
  ELSE LET t == CHOOSE t \in ts : TRUE IN
       Expired(ts \ {t}, NewR(R1, TRUE, t.sig))
Tick ==
  /\ now' = now + 1
  /\ LET due == {t \in timers : t.at <= now + 1} IN R' = Expired(due, R) /\ timers' = timers \ due
  /\ UNCHANGED <<lvars, dk, to, regs, queue, last, fresh, hooks, psig, ls>>

----------------------------------------------------------------------------
\* hooks; g is the signal it is told ("-": it does not ask)
PreHook(h, g) ==
  /\ Requests # {} /\ h \notin hooks.in
  /\ IF h \in hooks.late THEN hooks' = [hooks EXCEPT !.late = @ \ {h}, !.in = @ \cup {h}, !.pin = @ \cup {h}] /\ psig' = psig
     ELSE /\ hooks.pin = {} /\ hooks.npre < Len(hooks.pre) /\ h = hooks.pre[hooks.npre + 1]
          /\ hooks' = [hooks EXCEPT !.npre = @ + 1, !.in = @ \cup {h}, !.pin = {h}]
          /\ IF g = "-" THEN psig' = psig ELSE g \in Sigs /\ psig \in {"?", g} /\ psig' = g
  /\ UNCHANGED <<lvars, rest, R, ls>>
PostHook(h, g) ==
  /\ Closed # {} /\ h \notin hooks.in
  /\ IF h \in hooks.late THEN hooks' = [hooks EXCEPT !.late = @ \ {h}, !.in = @ \cup {h}]
     ELSE /\ hooks.in \ hooks.pin = {} /\ hooks.npost < Len(hooks.post) /\ h = hooks.post[hooks.npost + 1]
          /\ hooks' = [hooks EXCEPT !.npost = @ + 1, !.in = @ \cup {h}]
          /\ g = "-" \/ \E r \in Closed : r.sig = g
  /\ UNCHANGED <<lvars, rest, R, psig, ls>>
HookEnd(h) == /\ hooks' = [hooks EXCEPT !.in = @ \ {h}, !.pin = @ \ {h}, !.asleep = @ \ {h}] /\ UNCHANGED <<lvars, rest, R, psig, ls>>
HookSleep(h) == /\ hooks' = [hooks EXCEPT !.asleep = @ \cup {h}] /\ UNCHANGED <<lvars, rest, R, psig, ls>>
HookWake(h) == /\ hooks' = [hooks EXCEPT !.asleep = @ \ {h}] /\ UNCHANGED <<lvars, rest, R, psig, ls>>

----------------------------------------------------------------------------
\* the listeners are closed and drained for request r
CanClose == Requests # {} /\ (Strict("C25") => PreDone)
Begin(r) ==
  /\ r.ph = "new" /\ CanClose
  /\ R' = (R \ {r}) \cup {[r EXCEPT !.ph = "closing"]}
  /\ IF OpOf(r) \in DOMAIN O THEN UNCHANGED lvars ELSE Call(OpOf(r), IF r.force THEN "drainall" ELSE "drain", 0)
  /\ UNCHANGED <<rest, hooks, psig, ls>>
Drained == [i \in DOMAIN O \ {1000, 1001} |-> O[i]]
End ==
  /\ Gone /\ \E r \in R : r.ph = "closing"
  /\ R' = {IF r.ph = "closing" THEN [r EXCEPT !.ph = "closed"] ELSE r : r \in R}
  \* (where the hooks do not count, this may come before the listeners are really closed)
  /\ IF Strict("C25") THEN O' = Drained /\ drain' = 2 ELSE UNCHANGED <<O, drain>>
  /\ UNCHANGED <<mode, C, rest, hooks, psig, ls>>
UListenerClose(l) ==
  /\ CanClose /\ ls' = [ls EXCEPT ![l] = "closed"] /\ UNCHANGED <<lvars, rest, R, hooks, psig>>

GInternal ==
  \/ Internal /\ UNCHANGED <<rest, R, hooks, psig, ls>>
  \/ TakeSignal
  \/ \E i \in DOMAIN O : LinSet(i) \/ LinHook(i)
  \/ End
  \/ \E r \in R : Begin(r)
(* Some steps only ever allow more to happen: they may as well come first     *)
(* (taking signals only if no setting is about to change).                    *)
Eager(calm) ==
  \/ (calm /\ TakeSignal)
  \/ End
  \/ (~Strict("C25") /\ \E r \in R : Begin(r))
EagerNow(calm) ==
  \/ (queue # <<>> /\ calm)
  \/ (Gone /\ \E r \in R : r.ph = "closing")
  \/ (~Strict("C25") /\ \E r \in R : r.ph = "new")

----------------------------------------------------------------------------
Complete == Closed # {} /\ (Strict("C25") => PostDone)
GMayReturn(i) ==
  LET k == O[i].k IN
  CASE k = "wrap" -> TRUE
    [] k \in Settings -> O[i].ph = "lin"
    [] k \in {"shutdown", "now"} -> Complete /\ \E r \in Closed : r.sig = "" /\ r.force = (k = "now")
    [] k = "wait" -> Complete
    [] OTHER -> MayReturn(i)
GReturn(i) ==
  /\ GMayReturn(i)
  /\ O' = [x \in DOMAIN O \ {i} |-> O[x]]
  /\ UNCHANGED <<mode, drain, C, rest, R, hooks, psig, ls>>

\* nothing can move by itself
GSettled ==
  LET user == {i \in DOMAIN O : i < 1000} IN
  /\ Strict("C25") => hooks.in = hooks.asleep
  /\ hooks.in = {} =>
     /\ Strict("C25") => \A i \in user : O[i].k \notin Settings
     /\ queue = <<>>
     /\ Strict("C25") => (Requests # {} => PreDone)
     /\ Strict("C25") => (Closed # {} => PostDone)
     /\ Strict("C26") => (Requests # {} => \A l \in DOMAIN ls : ls[l] = "closed")
     /\ \A r \in R : r.ph # "new"
     /\ \A r \in R : r.ph = "closing" => ~Gone
     /\ Strict("C27") => \A r \in R : r.force => r.ph = "closed"
     /\ Strict("C26") => (Requests # {} => \A c \in DOMAIN C : ~IdleC(c))
     /\ Strict("C26") => \A i \in user : O[i].k \in {"wait", "shutdown", "now"} => ~(Gone /\ GMayReturn(i))
GQuiet ==
  /\ GSettled
  \* (a slow pre-hook holds everything up)
  /\ drain' = IF drain > 0 /\ hooks.pin = {} THEN 2 ELSE drain
  /\ fresh' = FALSE
  /\ O' = IF hooks.pin = {} /\ \A r \in R : r.ph = "closed" THEN Drained ELSE O
  /\ UNCHANGED <<mode, C, now, dk, to, regs, queue, last, timers, R, hooks, psig, ls>>
=============================================================================

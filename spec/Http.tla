-------------------------------- MODULE Http --------------------------------
(* Servers of package graceful: HTTP connections through a shutdown.          *)
(*                                                                            *)
(* A connection is dialed, accepted (fresh), has part of a request or all of  *)
(* it (part, act), is being served (run), has its response (resp), is kept    *)
(* for another request (kept), is about to be closed by the server (dying),   *)
(* refused, dead, or hijacked (hij).  What the client sent waits in buf until *)
(* the server gets to it.  A shutdown is: not asked for (0); asked for, but   *)
(* perhaps not effective everywhere (1); in force (2); the same for a forced  *)
(* one.  Time is counted in half seconds and passes only when all is quiet.   *)
(*                                                                            *)
(* Strict(p) says whether the demands of property p are made.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Strict(_), KnownCuts

VARIABLES now, sd, force,
          L,     \* listeners being served: id -> [st, fail, err, nap: the server waits a little]
          C,     \* connections
          S,     \* Serve calls: id -> listener
          W,     \* calls waiting for a shutdown to complete: id -> kind
          done   \* a shutdown has been completed
hvars == <<now, sd, force, L, C, S, W, done>>

NewConn(l) == [l |-> l, ph |-> "dialed", was |-> "", cs |-> "", n |-> 0, buf |-> <<>>, k |-> "", at |-> 0, cc |-> FALSE,
               body |-> FALSE, half |-> FALSE, hc |-> FALSE, idl |-> FALSE, reg |-> FALSE, nh |-> FALSE, pings |-> 0]
HInit == now = 0 /\ sd = 0 /\ force = 0 /\ L = <<>> /\ C = <<>> /\ S = <<>> /\ W = <<>> /\ done = FALSE

NewListener == [st |-> "unused", reg |-> FALSE, fail |-> "", err |-> "", nap |-> FALSE]
Set(c, ph) == C' = [C EXCEPT ![c].ph = ph]
Keeps(k) == k \in {"k", "b"}     \* requests after which the connection may be kept
Off(c) == sd > 0 \/ (C[c].l \in DOMAIN L /\ L[C[c].l].err # "")    \* (a server whose listener has failed is shut down too)
(* reg: certainly known to the package (a shutdown does not wait for what it   *)
(* only then learns about)                                                     *)
Managed(c) == C[c].ph \in {"part", "act", "run", "resp", "kept", "dying"} \/ (C[c].ph = "fresh" /\ C[c].reg)
Complete == sd > 0 /\ (\A l \in DOMAIN L : L[l].reg => L[l].st # "open") /\ \A c \in DOMAIN C : ~Managed(c)

----------------------------------------------------------------------------
\* the user of the package
Serve(i, l) ==
  /\ S' = (i :> l) @@ S
  /\ L' = (l :> [(IF l \in DOMAIN L THEN L[l] ELSE NewListener) EXCEPT !.st = "open", !.reg = FALSE]) @@ L
  /\ UNCHANGED <<now, sd, force, C, W, done>>
Ask(i, k) ==   \* shutdown, now, wait
  /\ W' = (i :> k) @@ W
  /\ sd' = IF k # "wait" /\ sd = 0 THEN 1 ELSE sd
  /\ force' = IF k = "now" /\ force = 0 THEN 1 ELSE force
  /\ UNCHANGED <<now, L, C, S, done>>
Raise == sd' = (IF sd = 0 THEN 1 ELSE sd) /\ UNCHANGED <<now, force, L, C, S, W, done>>
Tick == now' = now + 1 /\ L' = [l \in DOMAIN L |-> [L[l] EXCEPT !.nap = FALSE]]
        /\ C' = [c \in DOMAIN C |-> [C[c] EXCEPT !.was = IF @ = "linger" THEN "done" ELSE @]]
        /\ UNCHANGED <<sd, force, S, W, done>>

\* the clients
Dial(c, l) == C' = (c :> NewConn(l)) @@ C /\ UNCHANGED <<now, sd, force, L, S, W, done>>
Send(c, t, k) == C' = [C EXCEPT ![c].buf = Append(@, <<t, k>>)] /\ UNCHANGED <<now, sd, force, L, S, W, done>>
ClientClose(c) == C' = [C EXCEPT ![c].cc = TRUE] /\ UNCHANGED <<now, sd, force, L, S, W, done>>

\* the network
Fail(l, kind) ==   \* accepting on l is going to fail
  /\ L' = (l :> [(IF l \in DOMAIN L THEN L[l] ELSE NewListener) EXCEPT !.fail = kind]) @@ L
  /\ UNCHANGED <<now, sd, force, C, S, W, done>>
UAccept(c) ==
  /\ C[c].ph = "dialed"
  /\ \/ (Strict("C26") => sd < 2) /\ C' = [C EXCEPT ![c].ph = "fresh", ![c].at = now]
     \/ sd > 0 /\ C' = [C EXCEPT ![c].ph = "refused"]
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>
\* (the server tries again after a temporary error)
UAcceptErr(l, e) == L' = (IF e = "temp" THEN [L EXCEPT ![l].nap = TRUE] ELSE [L EXCEPT ![l].err = e]) /\ UNCHANGED <<now, sd, force, C, S, W, done>>
UListenerClose(l) ==
  /\ Strict("C26") => sd > 0 \/ L[l].err # ""
  /\ L' = [L EXCEPT ![l].st = "closed"] /\ UNCHANGED <<now, sd, force, C, S, W, done>>

----------------------------------------------------------------------------
\* the server gets to what the client sent
CanArrive(c) ==
  LET x == C[c]  t == x.buf[1][1] IN
  x.buf # <<>> /\ CASE x.ph \in {"fresh", "kept"} -> t \in {"p1", "full"} [] x.ph = "part" -> t = "p2"
                    [] x.ph \in {"act", "run"} -> t = "body" [] x.ph = "hij" -> TRUE [] OTHER -> FALSE
Arrive(c) ==
  LET x == C[c]  t == x.buf[1][1]  rest == Tail(x.buf) IN
  /\ x.buf # <<>>
  /\ CASE x.ph \in {"fresh", "kept"} /\ t = "p1" -> C' = [C EXCEPT ![c].ph = "part", ![c].buf = rest, ![c].k = x.buf[1][2]]
       [] x.ph \in {"fresh", "kept"} /\ t = "full" -> C' = [C EXCEPT ![c].ph = "act", ![c].buf = rest, ![c].k = x.buf[1][2], ![c].body = FALSE]
       [] x.ph = "part" /\ t = "p2" -> C' = [C EXCEPT ![c].ph = "act", ![c].buf = rest, ![c].body = FALSE]
       [] x.ph \in {"act", "run"} /\ t = "body" -> C' = [C EXCEPT ![c].body = TRUE, ![c].buf = rest]
       [] x.ph = "hij" -> C' = [C EXCEPT ![c].pings = @ + (IF t = "ping" THEN 1 ELSE 0), ![c].buf = rest]
       [] OTHER -> FALSE
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>
\* handlers; n is the number of the request on its connection.  The connection may be gone already.
Gone(c) == C[c].ph \in {"dying", "dead", "refused"}
HStart(c, n, k) ==
  LET x == C[c] IN
  /\ \/ x.ph = "act" /\ x.k = k /\ n = x.n + 1 /\ C' = [C EXCEPT ![c].ph = "run", ![c].half = FALSE]
     \/ x.ph \in {"dead", "dying"} /\ (x.was = "act" \/ x.buf # <<>>) /\ C' = [C EXCEPT ![c].was = "run"]
     \/ ~Strict("C26") /\ x.ph \notin {"dialed", "hij"} /\ C' = [C EXCEPT ![c].was = "run"]
  /\ Strict("C29") => x.cs = "active" /\ ~x.idl
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>
HHalf(c) == C' = [C EXCEPT ![c].half = TRUE] /\ UNCHANGED <<now, sd, force, L, S, W, done>>
HEnd(c, how) ==
  LET x == C[c] IN
  /\ CASE x.ph # "run" -> C' = [C EXCEPT ![c].was = IF x.k = "b" THEN "linger" ELSE "done"]   \* (net/http waits a little after a body not read)
       [] how = "panic" -> C' = [C EXCEPT ![c].ph = "dying"]
       [] OTHER -> (x.k = "b" => x.body \/ x.cc) /\ C' = [C EXCEPT ![c].ph = "resp", ![c].n = @ + 1]
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>
Hijack(c) ==
  /\ C' = IF C[c].ph = "run" THEN [C EXCEPT ![c].ph = "hij"] ELSE [C EXCEPT ![c].was = "done"]
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>
HijClose(c) == C' = [C EXCEPT ![c].hc = TRUE] /\ UNCHANGED <<now, sd, force, L, S, W, done>>

\* the response is delivered
Done(c) ==
  /\ C[c].ph = "resp"
  /\ \/ Keeps(C[c].k) /\ (Strict("C26") => sd < 2) /\ C' = [C EXCEPT ![c].ph = "kept", ![c].idl = TRUE]
     \/ (~Keeps(C[c].k) \/ Off(c)) /\ Set(c, "dying")
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>
Latch == Complete /\ ~done /\ done' = TRUE /\ UNCHANGED <<now, sd, force, L, C, S, W>>
(* Some steps may as well come first: until a shutdown is asked for (calm: not *)
(* before everything is quiet) nothing competes with them.                     *)
Eager(calm) == \/ Latch
               \/ calm /\ \E c \in DOMAIN C : Arrive(c) \/ Done(c)
               \/ Strict("C26") /\ sd = 2 /\ \E c \in DOMAIN C : Done(c)
EagerNow(calm) == \/ Complete /\ ~done
                  \/ calm /\ \E c \in DOMAIN C : CanArrive(c) \/ C[c].ph = "resp"
                  \/ Strict("C26") /\ sd = 2 /\ \E c \in DOMAIN C : C[c].ph = "resp"
HInternal == Latch \/ \E c \in DOMAIN C : Arrive(c) \/ Done(c)

(* net/http itself closes what it takes for idle when keep-alives are disabled *)
(* (nh): also connections on which a request has begun to arrive.              *)
Decide(c) ==
  /\ Off(c) \/ ~Strict("C26")
  /\ C' = [C EXCEPT ![c].nh = TRUE] /\ UNCHANGED <<now, sd, force, L, S, W, done>>
Cut(c) == C[c].nh

\* the server closes its side
MayClose(c) ==
  LET x == C[c] IN
  CASE x.ph = "hij" -> x.hc \/ ~Strict("C29")
    [] x.ph \in {"dying", "refused"} \/ x.cc -> TRUE
    [] x.ph \in {"fresh", "kept"} -> Off(c) \/ ~Strict("C26")
    [] x.ph = "dialed" -> FALSE
    [] OTHER -> force > 0 \/ ~Strict("C26") \/ (KnownCuts /\ Cut(c))
UClose(c, nresp) ==
  /\ MayClose(c)
  /\ Strict("C26") => C[c].cc \/ force > 0 \/ C[c].ph \in {"hij", "part", "act"} \/ (KnownCuts /\ Cut(c)) \/ nresp = C[c].n
  /\ C' = [C EXCEPT ![c].ph = "dead", ![c].was = IF @ = "" THEN C[c].ph ELSE @]
  /\ UNCHANGED <<now, sd, force, L, S, W, done>>

\* the callback for connection states
State(c, s) ==
  LET x == C[c] IN
  /\ Strict("C29") =>
       CASE s = "new" -> x.cs = "" /\ x.ph # "dialed"
         [] s = "active" -> x.cs \in {"new", "idle"} /\ ~x.idl /\ (x.ph = "act" \/ (x.ph = "part" /\ x.cc) \/ Gone(c))
         [] s = "idle" -> x.cs = "active" /\ (x.idl \/ Gone(c))
         [] s = "hijacked" -> x.cs = "active" /\ (x.ph = "run" \/ Gone(c))
         [] s = "closed" -> x.cs \in {"new", "active", "idle"} /\ x.ph = "dead"
         [] OTHER -> FALSE
  /\ C' = [C EXCEPT ![c].cs = s, ![c].reg = TRUE, ![c].idl = @ /\ s # "idle"] /\ UNCHANGED <<now, sd, force, L, S, W, done>>

----------------------------------------------------------------------------
\* returning
Quietly == {"op-closed", "ax-closed", "plain-closed"}   \* how accepting ends when a listener is closed
ServeReturn(i, res, same) ==
  LET l == S[i]  x == L[l] IN
  /\ Strict("C28") =>
       CASE x.err = "" -> res = "" /\ sd > 0      \* a connection was refused
         [] x.err \in Quietly /\ sd = 0 -> res = x.err
         [] x.err \in Quietly /\ x.fail = "" -> res = ""
         [] x.err \in Quietly -> res \in {"", x.err}
         [] x.fail = "" -> sd > 0 /\ res \in {"", x.err}   \* a listener with a way of its own
         [] OTHER -> res = x.err
  /\ Strict("C29") => same
  /\ S' = [j \in DOMAIN S \ {i} |-> S[j]]
  /\ UNCHANGED <<now, sd, force, L, C, W, done>>
MayReturn(i) == done
Return(i) ==
  /\ Strict("C26") => MayReturn(i)
  /\ W' = [j \in DOMAIN W \ {i} |-> W[j]]
  /\ UNCHANGED <<now, sd, force, L, C, S, done>>

\* (net/http waits for the rest of a request whose handler gave up)
Stuck(c) == C[c].ph = "dying" /\ C[c].k = "b" /\ ~C[c].body /\ C[c].buf = <<>> /\ ~C[c].cc
\* nothing can move by itself; obs[c]: [n: responses delivered, bad: one was wrong, pongs]
Settled(obs) ==
  /\ \A c \in DOMAIN C : ~CanArrive(c)
  /\ Strict("C26") =>
       /\ sd > 0 => \A l \in DOMAIN L : L[l].st # "open"
       /\ \A c \in DOMAIN C :
            /\ C[c].ph \notin {"act", "resp", "dying", "refused"} \/ Stuck(c)
            /\ sd > 0 => C[c].ph \notin {"fresh", "kept"}
            /\ C[c].ph \in {"fresh", "part", "run", "kept"} /\ ~C[c].cc => obs[c].n = C[c].n
            /\ C[c].cc \/ ~obs[c].bad
       /\ Complete => DOMAIN W = {}
  /\ Strict("C27") => (force > 0 => (\A c \in DOMAIN C : ~Managed(c)) /\ DOMAIN W = {})
  /\ Strict("C28") => \A i \in DOMAIN S : L[S[i]].nap \/ (L[S[i]].err = "" /\ L[S[i]].st = "open" /\ sd = 0)
  /\ Strict("C29") =>
       \A c \in DOMAIN C :
         LET x == C[c] IN
         CASE x.ph \in {"fresh", "part"} /\ x.n = 0 -> x.cs = "new"
           [] x.ph = "run" -> x.cs = "active"
           [] x.ph \in {"kept", "part"} -> x.cs = "idle"
           [] x.ph = "hij" -> x.cs = "hijacked" /\ (~x.cc => obs[c].pongs = x.pings)
           [] x.ph = "dead" /\ x.was \notin {"run", "linger"} -> x.cs = IF x.was \in {"fresh", "refused"} /\ x.cs = "" THEN "" ELSE IF x.cs = "hijacked" THEN "hijacked" ELSE "closed"
           [] OTHER -> TRUE
  \* hijacked connections delay nobody
  /\ Strict("C29") => (Complete => DOMAIN W = {})
HQuiet(obs) ==
  /\ Settled(obs)
  /\ sd' = (IF sd > 0 THEN 2 ELSE 0)
  /\ force' = (IF force > 0 THEN 2 ELSE 0)
  /\ C' = [c \in DOMAIN C |-> [C[c] EXCEPT !.reg = TRUE]]
  /\ L' = [l \in DOMAIN L |-> [L[l] EXCEPT !.reg = TRUE]]
  /\ UNCHANGED <<now, S, W, done>>
=============================================================================

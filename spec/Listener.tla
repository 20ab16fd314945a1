------------------------------ MODULE Listener ------------------------------
(* Connections managed by package graceful/listener.                          *)
(*                                                                            *)
(* A managed connection is open (idle or in use), dead (closed through the    *)
(* package), or own (disowned: its user's business).  Operations are calls    *)
(* with an effect at one instant between call and return (Lin); closing the   *)
(* underlying connection (UClose), accepting from the underlying listener     *)
(* (UAccept) and reading from the underlying connection (URead) are separate, *)
(* observable steps.  A drain is: not begun (0); begun, but its effect may    *)
(* not have reached every connection (1); in force (2).                       *)
(*                                                                            *)
(* Strict(p) says whether the demands of property p are made: the trace       *)
(* specification decides one property at a time.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Strict(_)

VARIABLES mode,   \* "manual", "auto", "deadline"
          drain,  \* 0, 1, 2
          C,      \* connections: id -> [st, busy, owed, ures, late]; late: handed out during a drain
          O       \* pending operations: id -> [k, c, ph, res, must, n]
lvars == <<mode, drain, C, O>>

Open(c)    == C[c].st = "open"
IdleC(c)   == C[c].st = "open" /\ ~C[c].busy
Pending(k) == {i \in DOMAIN O : O[i].k = k}
Shutting   == Pending("drain") \cup Pending("drainall")

NewConn == [st |-> "raw", busy |-> FALSE, owed |-> FALSE, ures |-> "", late |-> FALSE]
NewOp(k, c) == [k |-> k, c |-> c, ph |-> "call", res |-> "", must |-> {}, n |-> 0]

\* connections which are no longer idle need not be closed by a pending CloseIdle
Forget(O1, D) == [i \in DOMAIN O1 |-> IF O1[i].k = "closeidle" THEN [O1[i] EXCEPT !.must = @ \ D] ELSE O1[i]]

\* the package decides to close c
Kill(C1, c) == [C1 EXCEPT ![c].st = "dead", ![c].owed = TRUE]

----------------------------------------------------------------------------
Call(i, k, c) ==
  /\ i \notin DOMAIN O
  /\ O' = (i :> [NewOp(k, c) EXCEPT !.must = IF k = "closeidle" THEN {x \in DOMAIN C : IdleC(x)} ELSE {}]) @@ O
  /\ drain' = IF k \in {"drain", "drainall"} /\ drain = 0 THEN 1 ELSE drain
  /\ UNCHANGED <<mode, C>>

UAccept(i, c) ==
  /\ O[i].k = "accept" /\ O[i].ph = "call" /\ c \notin DOMAIN C
  /\ C' = (c :> NewConn) @@ C
  /\ O' = [O EXCEPT ![i].c = c, ![i].ph = "mid"]
  /\ UNCHANGED <<mode, drain>>
\* the underlying listener fails
UAcceptErr(i, e) ==
  /\ O[i].k = "accept" /\ O[i].ph = "call"
  /\ O' = [O EXCEPT ![i].ph = "lin", ![i].res = e]
  /\ UNCHANGED <<mode, drain, C>>

URead(i, n, e) ==
  /\ O[i].k = "read" /\ O[i].ph = "call"
  /\ O' = [O EXCEPT ![i].ph = "mid", ![i].res = e, ![i].n = n]
  /\ UNCHANGED <<mode, drain, C>>

USetDeadline(i, e) ==
  /\ O[i].k = "srd" /\ O[i].n = 0
  /\ O' = [O EXCEPT ![i].n = 1, ![i].res = e]
  /\ UNCHANGED <<mode, drain, C>>

\* the underlying connection is closed: because the package decided to (owed), or because the
\* user of a disowned connection wants it
UCloseOwed(c, e) ==
  /\ C[c].owed
  /\ C' = [C EXCEPT ![c].owed = FALSE, ![c].ures = e]
  /\ UNCHANGED <<mode, drain, O>>
UClosePass(i, c, e) ==
  /\ C[c].st = "own" /\ O[i].k = "close" /\ O[i].c = c /\ O[i].ph \in {"call", "pass"}
  /\ O' = [O EXCEPT ![i].ph = "lin", ![i].res = e, ![i].n = 1]
  /\ UNCHANGED <<mode, drain, C>>

----------------------------------------------------------------------------
(* the instants at which operations take effect *)

LinAccept(i) ==
  /\ O[i].k = "accept" /\ O[i].ph = "mid"
  /\ LET c == O[i].c IN
     \/ /\ Strict("C23") => drain < 2
        /\ C' = [C EXCEPT ![c].st = "open", ![c].late = drain > 0]
        /\ O' = [O EXCEPT ![i].ph = "lin", ![i].res = ""]
     \/ /\ Strict("C23") => drain > 0
        /\ C' = [C EXCEPT ![c].st = "refused", ![c].owed = TRUE]
        /\ O' = [O EXCEPT ![i].ph = "lin", ![i].res = "refused"]
  /\ UNCHANGED <<mode, drain>>

LinRead(i) ==
  /\ O[i].k = "read" /\ (O[i].ph = "mid" \/ (O[i].ph = "call" /\ C[O[i].c].st = "dead"))
  /\ LET c == O[i].c IN
     CASE C[c].st = "own" -> O' = [O EXCEPT ![i].ph = "lin"] /\ C' = C
       [] C[c].st = "dead" -> O' = [O EXCEPT ![i].ph = "lin", ![i].res = IF @ = "" THEN "closed" ELSE @] /\ C' = C
       [] OTHER -> LET b == mode # "manual" \/ C[c].busy IN
                   /\ C' = [C EXCEPT ![c].busy = b]
                   /\ O' = Forget([O EXCEPT ![i].ph = "lin"], IF b THEN {c} ELSE {})
  /\ UNCHANGED <<mode, drain>>

LinClose(i) ==
  /\ O[i].k = "close" /\ O[i].ph = "call"
  /\ LET c == O[i].c IN
     CASE C[c].st = "own" -> O' = [O EXCEPT ![i].ph = "pass"] /\ C' = C
       [] C[c].st = "open" -> C' = Kill(C, c) /\ O' = Forget([O EXCEPT ![i].ph = "lin", ![i].res = "first"], {c})
       [] OTHER -> O' = [O EXCEPT ![i].ph = "lin", ![i].res = "closed"] /\ C' = C
  /\ UNCHANGED <<mode, drain>>

LinDisown(i) ==
  /\ O[i].k = "disown" /\ O[i].ph = "call"
  /\ LET c == O[i].c IN
     IF Open(c) THEN C' = [C EXCEPT ![c].st = "own"] /\ O' = Forget([O EXCEPT ![i].ph = "lin", ![i].res = ""], {c})
     ELSE C' = C /\ O' = [O EXCEPT ![i].ph = "lin", ![i].res = "error"]
  /\ UNCHANGED <<mode, drain>>

LinUse(i) ==
  /\ O[i].k = "use" /\ O[i].ph = "call"
  \* nobody is told that a connection is in use which is about to be closed
  /\ Strict("C21") => ~C[O[i].c].owed
  /\ LET c == O[i].c IN
     IF Open(c) THEN C' = [C EXCEPT ![c].busy = TRUE] /\ O' = Forget([O EXCEPT ![i].ph = "lin"], {c})
     ELSE C' = C /\ O' = [O EXCEPT ![i].ph = "lin"]
  /\ UNCHANGED <<mode, drain>>

\* becoming idle while a drain is in force is the end
Idle(c) == IF ~Open(c) \/ ~C[c].busy THEN C
           ELSE IF drain = 2 THEN Kill(C, c) ELSE [C EXCEPT ![c].busy = FALSE]
LinIdle(i) ==
  /\ O[i].k = "idle" /\ O[i].ph = "call"
  /\ C' = Idle(O[i].c) /\ O' = [O EXCEPT ![i].ph = "lin"]
  /\ UNCHANGED <<mode, drain>>
LinDeadline(i) ==
  /\ O[i].k = "srd" /\ O[i].ph = "call"
  /\ C' = IF mode = "deadline" THEN Idle(O[i].c) ELSE C
  /\ O' = [O EXCEPT ![i].ph = "lin"]
  /\ UNCHANGED <<mode, drain>>

\* a shutdown closes a connection
MayKill(c) == Open(c) /\ (Pending("drainall") # {} \/ (~C[c].busy /\ Pending("closeidle") \cup Pending("drain") # {}))
Doom(c) ==
  /\ MayKill(c)
  /\ C' = Kill(C, c) /\ O' = Forget(O, {c})
  /\ UNCHANGED <<mode, drain>>

Lin(i) == LinAccept(i) \/ LinRead(i) \/ LinClose(i) \/ LinDisown(i) \/ LinUse(i) \/ LinIdle(i) \/ LinDeadline(i)
Internal == (\E i \in DOMAIN O : Lin(i)) \/ (\E c \in DOMAIN C : Doom(c))

----------------------------------------------------------------------------
\* what a call may answer (res: "" is no error), and when it may return at all
Gone == \A c \in DOMAIN C : ~Open(c) /\ ~(C[c].st = "dead" /\ C[c].owed)
MayReturn(i) ==
  CASE O[i].k \in {"drain", "drainall"} -> Strict("C20") => Gone
    [] O[i].k = "closeidle" -> Strict("C21") => O[i].must = {}
    [] O[i].k = "srd" -> O[i].ph = "lin" /\ (Strict("C24") => O[i].n = 1)
    [] O[i].k = "close" -> O[i].ph = "lin" \/ (O[i].ph = "pass" /\ ~Strict("C24"))
    [] O[i].k \in {"lclose", "misc"} -> TRUE
    [] OTHER -> O[i].ph = "lin"
Expect(i) ==
  LET o == O[i]  k == o.k  c == o.c IN
  IF k = "close" /\ o.res = "first" THEN (IF C[c].owed THEN "not yet" ELSE C[c].ures) ELSE o.res
Return(i) ==
  /\ MayReturn(i)
  /\ O' = [x \in DOMAIN O \ {i} |-> O[x]]
  /\ drain' = IF O[i].k \in {"drain", "drainall"} THEN 2 ELSE drain
  /\ UNCHANGED <<mode, C>>

\* Nothing can move by itself: whoever has not returned waits for the outside world.
Settled ==
  /\ Strict("C20") =>
       /\ \A i \in DOMAIN O : \/ O[i].ph = "call" /\ O[i].k \in {"accept", "read"}
                              \/ O[i].k = "drain" /\ (\E c \in DOMAIN C : Open(c))
       /\ Shutting # {} => \A c \in DOMAIN C : ~IdleC(c)
  /\ Strict("C24") => \/ Shutting = {} \/ (\A c \in DOMAIN C : C[c].st # "own") \/ (\E c \in DOMAIN C : Open(c))
  \* what slips through while a drain begins is closed by it, unless it came into use in time
  /\ Strict("C23") => \A c \in DOMAIN C : ~C[c].owed /\ C[c].st # "raw" /\ ~(C[c].late /\ IdleC(c))
Quiet ==
  /\ Settled
  /\ drain' = IF drain > 0 THEN 2 ELSE 0
  /\ UNCHANGED <<mode, C, O>>

LInit(m) == mode = m /\ drain = 0 /\ C = <<>> /\ O = <<>>
=============================================================================

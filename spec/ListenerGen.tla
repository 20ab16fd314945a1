---------------------------- MODULE ListenerGen ----------------------------
(* Bounded exploration of Listener.                                           *)
(*                                                                            *)
(* Conc = TRUE: every interleaving of up to MaxOps overlapping operations on  *)
(* MaxConns connections (design check).  Conc = FALSE: an operation is called *)
(* only when nothing else can move; every transition of that graph is printed *)
(* as a stimulus.                                                             *)
EXTENDS Listener, GenUtil

CONSTANTS MaxConns, MaxOps, Conc, Mode

VARIABLES hist, nops   \* hist: what was asked for
gvars == <<lvars, hist, nops>>
all(p) == TRUE
StateView == <<mode, drain, C, O, IF Conc THEN nops ELSE 0>>

Kinds == {"read", "close", "disown", "use", "idle", "srd"}
Busy == {i \in DOMAIN O : ~((O[i].ph = "call" /\ O[i].k = "read") \/ (O[i].k = "drain" /\ \E c \in DOMAIN C : Open(c)))}
CanMove == Busy # {} \/ (\E c \in DOMAIN C : C[c].owed \/ C[c].st = "raw") \/ (Shutting # {} /\ \E c \in DOMAIN C : IdleC(c))
Ready == Conc \/ (~CanMove /\ drain # 1)
H(a, c) == hist' = Append(hist, [a |-> a, c |-> c])
Out == IF Conc THEN TRUE ELSE Emit("STIM", hist')
NewId == CHOOSE i \in 1..(MaxOps + 1) : i \notin DOMAIN O /\ \A j \in 1..(i - 1) : j \in DOMAIN O
Handed == {c \in DOMAIN C : C[c].st \in {"open", "dead", "own"}}
Reading(c) == \E i \in DOMAIN O : O[i].k = "read" /\ O[i].c = c

Init ==
  /\ mode = Mode /\ drain = 0 /\ O = <<>> /\ hist = <<>> /\ nops = 0
  /\ IF Conc THEN C \in [1..MaxConns -> {[NewConn EXCEPT !.st = "open", !.busy = b] : b \in BOOLEAN}] ELSE C = <<>>
DoCall ==
  /\ Ready /\ Cardinality(DOMAIN O) < MaxOps /\ (Conc => nops < MaxOps)
  /\ \/ /\ Cardinality(DOMAIN C) < MaxConns + (IF Conc THEN 1 ELSE 0) /\ Pending("accept") = {} /\ Call(NewId, "accept", 0) /\ H("accept", Cardinality(DOMAIN C) + 1)
     \/ \E k \in Kinds, c \in Handed :
          /\ k = "read" => ~Reading(c)
          /\ Call(NewId, k, c) /\ H(k, c)
     \/ \E k \in {"closeidle", "drain", "drainall"} : Call(NewId, k, 0) /\ H(k, 0)
  /\ nops' = nops + 1 /\ Out
World ==
  /\ \/ \E i \in Pending("accept") : UAccept(i, Cardinality(DOMAIN C) + 1) /\ UNCHANGED hist
     \/ \E i \in Pending("read"), e \in {"", "EOF"} : Ready /\ URead(i, IF e = "" THEN 3 ELSE 0, e)
           /\ H(IF e = "" THEN "feed" ELSE "feederr", O[i].c) /\ Out
     \/ \E i \in Pending("srd") : USetDeadline(i, "") /\ UNCHANGED hist
     \/ \E c \in DOMAIN C : UCloseOwed(c, "") /\ UNCHANGED hist
     \/ \E i \in Pending("close"), c \in DOMAIN C : UClosePass(i, c, "") /\ UNCHANGED hist
  /\ UNCHANGED nops
Move == /\ (Internal \/ (\E i \in DOMAIN O : Return(i) /\ (O[i].k = "drain" => Gone)))
        /\ UNCHANGED <<hist, nops>>
Still == ~CanMove /\ drain = 1 /\ Quiet /\ UNCHANGED <<hist, nops>>
Next == DoCall \/ World \/ Move \/ Still

\* ---- the design ----
AfterDrain == (drain = 2 /\ Shutting = {}) => \A c \in DOMAIN C : ~Open(c)
OneClose == \A c \in DOMAIN C : C[c].owed => C[c].st \in {"dead", "refused"}
OwnStays == [][\A c \in DOMAIN C : C[c].st = "own" => C'[c].st = "own"]_gvars
DeadStays == [][\A c \in DOMAIN C : C[c].st \in {"dead", "refused"} => C'[c].st = C[c].st]_gvars
BusySpared == [][\A c \in DOMAIN C : (Open(c) /\ C[c].busy /\ C'[c].st = "dead") =>
                     Pending("drainall") # {} \/ (\E i \in DOMAIN O : O[i].k \in {"close", "idle", "srd"} /\ O[i].c = c)]_gvars
=============================================================================

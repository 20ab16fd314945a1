------------------------------ MODULE HttpGen ------------------------------
(* Bounded exploration of Http with a server that does what it must.          *)
(* Racy = FALSE: users and clients act only when nothing else can move; every *)
(* such transition is printed as a stimulus.  Racy = TRUE: they act whenever  *)
(* they like, and only the design is checked.                                 *)
EXTENDS Http, GenUtil

CONSTANTS MaxC, MaxN,   \* connections, requests on one of them
          MaxAsk,       \* requests to shut down
          Rich,         \* more kinds of requests and of their ends
          Racy

VARIABLES fin,          \* what the handlers were told to do
          sent,         \* requests sent
          hist
vars == <<hvars, fin, sent, hist>>
all(p) == TRUE
StateView == <<now, sd, force, L, C, S, W, done, fin, sent>>

Cl(x) == <<x.ph, x.buf>>
----------------------------------------------------------------------------
\* the server
SAccept == \E c \in DOMAIN C : C[c].ph = "dialed" /\ C[c].l \in DOMAIN L /\ L[C[c].l].st = "open" /\ UAccept(c)
SClose == sd > 0 /\ \E l \in DOMAIN L : L[l].st = "open" /\ UListenerClose(l)
SErr == \E l \in DOMAIN L : L[l].st = "closed" /\ L[l].err = "" /\ UAcceptErr(l, "op-closed")
SState == \E c \in DOMAIN C :
  LET x == C[c] IN
  \/ x.ph = "fresh" /\ x.cs = "" /\ State(c, "new")
  \/ x.ph = "act" /\ ~x.idl /\ x.cs \in {"new", "idle"} /\ State(c, "active")
  \/ x.idl /\ x.cs = "active" /\ State(c, "idle")
  \/ x.ph = "run" /\ fin[c] = "hij" /\ x.cs = "active" /\ State(c, "hijacked")
  \/ x.ph = "dead" /\ x.was \notin {"run", "linger"} /\ x.cs \in {"new", "active", "idle"} /\ State(c, "closed")
SStart == \E c \in DOMAIN C : C[c].ph = "act" /\ C[c].cs = "active" /\ ~C[c].idl /\ HStart(c, C[c].n + 1, C[c].k)
Running(c) == C[c].ph = "run" \/ (C[c].ph = "dead" /\ C[c].was = "run")
SEnd == \E c \in DOMAIN C :
  /\ Running(c) /\ fin[c] # ""
  /\ IF fin[c] = "hij" /\ C[c].ph = "run" THEN C[c].cs = "hijacked" /\ Hijack(c) ELSE HEnd(c, fin[c])
  /\ fin' = [fin EXCEPT ![c] = ""]
Must(c) ==
  LET x == C[c] IN
  CASE x.ph = "hij" -> x.hc
    [] x.ph \in {"dying", "refused"} -> ~Stuck(c) \/ force > 0
    [] x.ph \in {"fresh", "kept"} -> sd > 0 \/ x.cc
    [] x.ph \in {"part", "act", "resp"} -> force > 0 \/ (x.ph = "part" /\ x.cc)
    [] x.ph = "run" -> force > 0
    [] OTHER -> FALSE
\* (what was sent before is read first)
SUClose == \E c \in DOMAIN C : Must(c) /\ (~CanArrive(c) \/ sd > 0 \/ C[c].ph = "hij") /\ UClose(c, C[c].n)
SServe == \E i \in DOMAIN S : L[S[i]].err # "" /\ ServeReturn(i, "", TRUE)
SReturn == \E i \in DOMAIN W : done /\ Return(i)
SStep == Latch \/ \E c \in DOMAIN C : (C[c].cs # "" /\ ~C[c].idl /\ Arrive(c)) \/ Done(c)
Server == (SAccept \/ SClose \/ SErr \/ SState \/ SStart \/ SUClose \/ SServe \/ SReturn \/ SStep) /\ UNCHANGED <<fin, sent, hist>>
Sys == Server \/ (SEnd /\ UNCHANGED <<sent, hist>>)
Moving ==
  \/ \E c \in DOMAIN C :
       LET x == C[c] IN
       \/ CanArrive(c) \/ Must(c) \/ x.ph \in {"resp", "act"} \/ x.idl
       \/ x.ph = "dialed" /\ x.l \in DOMAIN L /\ L[x.l].st = "open"
       \/ x.ph = "fresh" /\ x.cs = ""
       \/ x.ph = "dead" /\ x.was \notin {"run", "linger"} /\ x.cs \in {"new", "active", "idle"}
       \/ Running(c) /\ fin[c] # "" /\ (x.k = "b" /\ fin[c] = "ok" /\ x.ph = "run" => x.body \/ x.cc)
  \/ \E l \in DOMAIN L : (L[l].st = "open" /\ sd > 0) \/ (L[l].st = "closed" /\ L[l].err = "")
  \/ DOMAIN S # {} /\ \E i \in DOMAIN S : L[S[i]].err # ""
  \/ Complete /\ ~done
  \/ done /\ DOMAIN W # {}
Fresh == sd = 1 \/ force = 1 \/ (\E c \in DOMAIN C : ~C[c].reg) \/ \E l \in DOMAIN L : ~L[l].reg
Ready == Racy \/ (~Moving /\ ~Fresh)
Obs == [c \in DOMAIN C |-> [n |-> C[c].n, bad |-> FALSE, pongs |-> C[c].pings]]
Still == ~Moving /\ Fresh /\ HQuiet(Obs) /\ UNCHANGED <<fin, sent, hist>>

----------------------------------------------------------------------------
\* users and clients
H(a, c, s) == IF Racy THEN hist' = hist ELSE hist' = Append(hist, [a |-> a, c |-> c, s |-> s]) /\ Emit("STIM", hist')
Kinds == IF Rich THEN {"k", "c", "b"} ELSE {"k"}
Ends == IF Rich THEN {"ok", "panic", "hij"} ELSE {"ok"}
Here(c) == ~C[c].cc /\ C[c].ph \notin {"dead", "refused"}
\* pieces of requests that may follow what was sent
Whole(c) == sent[c] < MaxN /\ C[c].ph # "hij" /\ (IF C[c].buf = <<>> THEN TRUE ELSE C[c].buf[Len(C[c].buf)][1] \in {"full", "p2"}) /\ C[c].ph # "part"
            /\ (C[c].ph \in {"run", "act"} => C[c].k # "b" \/ C[c].body)
SendC(c) ==
  /\ Here(c)
  /\ \/ \E k \in Kinds, t \in {"full", "p1"} :
          /\ Whole(c) /\ Send(c, t, k) /\ sent' = [sent EXCEPT ![c] = @ + 1]
          /\ H("send", c, t \o ":" \o k)
     \/ /\ C[c].ph = "part" /\ C[c].buf = <<>>
        /\ Send(c, "p2", C[c].k) /\ H("send", c, "p2:" \o C[c].k) /\ UNCHANGED sent
     \/ /\ (C[c].ph = "run" \/ Stuck(c)) /\ C[c].k = "b" /\ ~C[c].body /\ C[c].buf = <<>>
        /\ Send(c, "body", "") /\ H("send", c, "body") /\ UNCHANGED sent
     \/ /\ C[c].ph = "hij" /\ C[c].pings = 0 /\ C[c].buf = <<>>
        /\ Send(c, "ping", "") /\ H("send", c, "ping") /\ UNCHANGED sent
  /\ UNCHANGED fin
Finish(c) == \E how \in Ends :
  /\ Running(c) /\ fin[c] = "" /\ (how = "hij" => C[c].k # "b" /\ C[c].buf = <<>>)
  /\ fin' = [fin EXCEPT ![c] = how] /\ H("fin", c, how) /\ UNCHANGED <<hvars, sent>>
Env ==
  /\ Ready
  /\ \/ \E c \in 1..MaxC : c \notin DOMAIN C /\ (c = 1 \/ (c - 1) \in DOMAIN C) /\ Dial(c, 1 + ((c - 1) % 2))
          /\ fin' = (c :> "") @@ fin /\ sent' = (c :> 0) @@ sent /\ H("dial", c, ToString(1 + ((c - 1) % 2)))
     \/ \E c \in DOMAIN C : SendC(c) \/ Finish(c)
     \/ \E c \in DOMAIN C : Rich /\ Here(c) /\ C[c].ph # "dialed" /\ ClientClose(c) /\ H("cclose", c, "") /\ UNCHANGED <<fin, sent>>
     \/ \E c \in DOMAIN C : C[c].ph = "hij" /\ ~C[c].hc /\ HijClose(c) /\ H("hclose", c, "") /\ UNCHANGED <<fin, sent>>
     \/ \E k \in {"shutdown", "now"} : Cardinality(DOMAIN W) < MaxAsk /\ ~done /\ ~(\E j \in DOMAIN W : W[j] = k)
          /\ Ask(100 + Cardinality(DOMAIN W), k) /\ H(k, 0, "") /\ UNCHANGED <<fin, sent>>
Next == Sys \/ Env \/ Still
Init ==
  /\ now = 0 /\ sd = 0 /\ force = 0 /\ W = <<>> /\ done = FALSE /\ C = <<>> /\ fin = <<>> /\ sent = <<>> /\ hist = <<>>
  /\ L = [l \in {1, 2} |-> [NewListener EXCEPT !.st = "open", !.reg = TRUE]]
  /\ S = 1 :> 1 @@ 2 :> 2

\* ---- the design ----
\* what has begun is served, unless the shutdown is forced or the client goes away
Served == \A c \in DOMAIN C : C[c].ph = "dead" /\ C[c].was \in {"part", "act", "run", "resp", "linger"} => force > 0 \/ C[c].cc
\* nothing is left when a shutdown has been completed (but what was just being accepted)
Left == done /\ ~Racy => (\A l \in DOMAIN L : L[l].reg => L[l].st # "open") /\ \A c \in DOMAIN C : C[c].reg => ~Managed(c)
\* at rest, everything the properties demand is so
AtRest == ~Moving => Settled(Obs)
Hijacked == [][\A c \in DOMAIN C : C[c].ph = "hij" => C'[c].ph = "hij" \/ C[c].hc]_vars
\* a shutdown is completed when handlers end and clients send what they began to send
Helpful == \E c \in DOMAIN C : Finish(c) \/ (C[c].ph \in {"part", "run", "dying"} /\ SendC(c))
Completed == (sd > 0) ~> done
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys) /\ WF_vars(Still) /\ WF_vars(Helpful)
=============================================================================

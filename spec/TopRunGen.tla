------------------------------ MODULE TopRunGen ------------------------------
(* All short histories of a serving process; each that is complete is printed *)
(* as a stimulus.                                                             *)
EXTENDS TopRun, GenUtil

CONSTANTS MaxOps
VARIABLES hist, out
vars == <<rvars, hist, out>>
Do(x) == hist' = Append(hist, x)
Conns == 1..2
Init == RInit /\ boot \in [how : {"listener", "einhorn"}, own : {FALSE}] /\ hist = <<>> /\ out = [res |-> "", lines |-> <<>>]
None == [res |-> "none", lines |-> <<>>]
X(a, b) == IF phase = "up" THEN [res |-> a, lines |-> b] ELSE None
\* is the signal close to the last one?
RECURSIVE Close(_)
Close(h) == IF h = <<>> THEN FALSE ELSE LET e == h[Len(h)] IN IF e.op = "wait" /\ e.ms > 2000 THEN FALSE ELSE IF e.op = "sig" THEN TRUE ELSE Close(SubSeq(h, 1, Len(h) - 1))
\* connections are numbered in the order of their use
Fresh(c) == c = 1 \/ \E i \in 1..Len(hist) : "c" \in DOMAIN hist[i] /\ hist[i].c = c - 1
Next ==
  /\ Len(hist) < MaxOps /\ Alive
  /\ \/ \E c \in Conns, p \in {"/goji", "/debug/x", "/late"} : Fresh(c) /\ out' = X(Answer(p), Returning(By(p), Answer(p)) \o Started(By(p))) /\ Req(c, p, out') /\ Do([op |-> "req", c |-> c, path |-> p])
     \/ \E c \in Conns : Fresh(c) /\ out' = [res |-> "", lines |-> <<>>] /\ Mute(c, out') /\ Do([op |-> "mute", c |-> c])
     \/ \E c \in Conns, by \in {"goji", "mux"} : Fresh(c) /\ out' = X("started", Started(by)) /\ Slow(c, by, out') /\ Do([op |-> "slow", c |-> c, path |-> IF by = "goji" THEN "/slow/" ELSE "/debug/slow/"])
     \/ \E c \in Busy : out' = [res |-> conns[c], lines |-> Returning(conns[c], "200")] /\ Release(c, out') /\ Do([op |-> "release", c |-> c])
     \/ \E s \in Signals : out' = [res |-> "", lines |-> <<>>] /\ Signal(s, Close(hist), out') /\ Do([op |-> "sig", s |-> s])
     \/ out' = [res |-> "", lines |-> <<>>] /\ ~late /\ Late(out') /\ Do([op |-> "late"])
     \/ out' = [res |-> "", lines |-> <<>>] /\ Close(hist) /\ hist[Len(hist)].op # "wait" /\ \E ms \in {1100, 2300} : Wait(out') /\ Do([op |-> "wait", ms |-> ms])
     \/ out' = [res |-> "", lines |-> <<>>] /\ boot.how = "listener" /\ Break(out') /\ Do([op |-> "break"])
  /\ ((Len(hist') = MaxOps \/ ~Alive') => Emit("STIM", [how |-> boot.how, hist |-> hist']))
----------------------------------------------------------------------------
\* the function returns only when everything has been answered, unless it was forced
Complete == phase = "done" => conns = Empty /\ sigs > 0 /\ (\A i \in 1..Len(hist) : hist[i].op # "break")
Unforced == forced => sigs > 1
\* nothing idle lingers, and no process waits for nothing
NoLinger == phase = "draining" => DOMAIN conns = Busy /\ Busy # {}
\* whatever was started and released was answered in full, unless forced
Kept == \A i \in 1..Len(hist) : hist[i].op = "slow" /\ phase = "done" /\ ~forced => \/ \E j \in (i + 1)..Len(hist) : hist[j].op = "release" /\ hist[j].c = hist[i].c
                                                                                  \/ \E j \in 1..(i - 1) : hist[j].op = "sig"
=============================================================================

-------------------------------- MODULE Bind --------------------------------
(* Package bind: a process finds out where to listen, opens what it is told   *)
(* to open, and tells Einhorn that it is ready.                               *)
(*                                                                            *)
(* env: the environment; passed: inherited descriptors (number -> address, or *)
(* "" for what is no socket).                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Strict(_)

VARIABLES env, pid, ppid, passed, dir,
          flag,      \* the value of the bind flag
          opened,    \* what has been opened: descriptors, paths
          ready,     \* readiness has been declared
          dead       \* the process has ended fatally
bvars == <<env, pid, ppid, passed, dir, flag, opened, ready, dead>>

----------------------------------------------------------------------------
\* numbers
Bad == 0 - 1000000000
Char(s, i) == SubSeq(s, i, i)
Digits == "0123456789"
Digit(ch) == IF \E i \in 1..10 : Char(Digits, i) = ch THEN (CHOOSE i \in 1..10 : Char(Digits, i) = ch) - 1 ELSE Bad
RECURSIVE Value(_)
Value(s) == IF s = "" THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + Digit(Char(s, Len(s)))
Unsigned(s) == IF s # "" /\ Len(s) <= 9 /\ (\A i \in 1..Len(s) : Digit(Char(s, i)) # Bad) THEN Value(s) ELSE Bad
Num(s) == IF s # "" /\ Char(s, 1) = "-" THEN (LET n == Unsigned(SubSeq(s, 2, Len(s))) IN IF n = Bad THEN Bad ELSE 0 - n) ELSE Unsigned(s)
Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(p, s) == SubSeq(s, Len(p) + 1, Len(s))

\* the environment
Get(n) == IF n \in DOMAIN env THEN env[n] ELSE ""
Passes(who, me, count) == IF Num(Get(who)) = me /\ Num(Get(count)) > 0 THEN Num(Get(count)) ELSE 0
Einhorn == Passes("EINHORN_MASTER_PID", ppid, "EINHORN_FD_COUNT")
Systemd == Passes("LISTEN_PID", pid, "LISTEN_FDS")
EinhornFd(n) == Num(Get("EINHORN_FD_" \o ToString(n)))
Sniffed == IF Get("GOJI_BIND") # "" THEN Get("GOJI_BIND")
           ELSE IF Einhorn > 0 THEN "einhorn@0"
           ELSE IF Systemd > 0 THEN "fd@3"
           ELSE IF Get("PORT") # "" THEN ":" \o Get("PORT")
           ELSE ""
\* descriptors that children must not get
Ours == {EinhornFd(n) : n \in 0..(Einhorn - 1)} \cup {2 + n : n \in 1..Systemd}

\* bind strings
Colons(s) == {i \in 1..Len(s) : Char(s, i) = ":"}
Fatal == [res |-> "fatal", net |-> "", what |-> ""]
Tcp(s) ==
  IF Cardinality(Colons(s)) # 1 THEN Fatal ELSE
  LET i == CHOOSE i \in Colons(s) : TRUE  h == SubSeq(s, 1, i - 1)  p == Num(SubSeq(s, i + 1, Len(s))) IN
  IF h \in {"", "127.0.0.1"} /\ p >= 0 /\ p < 65536 THEN [res |-> "open", net |-> "tcp", what |-> IF h = "" THEN "any" ELSE h] ELSE Fatal
Names == {"/u1", "/u2", "/.u1", "/sub/u1", "/sub/u2"}   \* paths that can be made
Path(s) == IF Prefix("./", s) THEN dir \o SubSeq(s, 2, Len(s)) ELSE IF Prefix(".", s) THEN dir \o "/" \o s ELSE s
Unix(s) == IF (\E n \in Names : Path(s) = dir \o n) /\ Path(s) \notin opened THEN [res |-> "open", net |-> "unix", what |-> s] ELSE Fatal
Fd(n) == IF n \in DOMAIN passed /\ passed[n] # "" THEN [res |-> "open", net |-> "fd", what |-> passed[n]] ELSE Fatal
Open(s) ==
  IF Colons(s) # {} THEN Tcp(s)
  ELSE IF Prefix(".", s) \/ Prefix("/", s) THEN Unix(s)
  ELSE IF Prefix("fd@", s) THEN Fd(Num(After("fd@", s)))
  ELSE IF Prefix("einhorn@", s) THEN
    LET n == Num(After("einhorn@", s)) IN IF n >= 0 /\ n < Einhorn THEN Fd(EinhornFd(n)) ELSE Fatal
  ELSE Fatal
\* what is taken by opening s (a descriptor can be listened on only once)
Taken(s) == IF Colons(s) # {} THEN s
            ELSE IF Prefix("fd@", s) THEN ToString(Num(After("fd@", s)))
            ELSE IF Prefix("einhorn@", s) THEN ToString(EinhornFd(Num(After("einhorn@", s)))) ELSE Path(s)
Port(s) == LET i == CHOOSE i \in Colons(s) : TRUE IN Num(SubSeq(s, i + 1, Len(s)))

----------------------------------------------------------------------------
Start(e, p, pp, ps, d) ==
  /\ env' = e /\ pid' = p /\ ppid' = pp /\ passed' = ps /\ dir' = d
  /\ flag' = "" /\ opened' = {} /\ ready' = FALSE /\ dead' = FALSE
Same == UNCHANGED <<env, pid, ppid, passed, dir>>
Descriptors(set, n) ==    \* of the n inherited descriptors, those in set are closed on exec
  /\ Strict("C32") => set = Ours \cap 3..(2 + n)
  /\ UNCHANGED bvars
Sniff(res) == (Strict("C30") => res = Sniffed) /\ UNCHANGED bvars
WithFlag(default, res) ==
  /\ Strict("C30") => res = IF Sniffed = "" THEN default ELSE Sniffed
  /\ flag' = res /\ Same /\ UNCHANGED <<opened, ready, dead>>
Parse(s) == flag' = s /\ Same /\ UNCHANGED <<opened, ready, dead>>
\* o: [res, net, addr, host, port]
Socket(s, o) ==
  LET x == Open(s) IN
  /\ Strict("C31") => IF x.res = "fatal" THEN o.res = "fatal"
     ELSE /\ o.res = "open"
          /\ CASE x.net = "tcp" -> o.net = "tcp" /\ o.host = x.what /\ (Port(s) # 0 => o.port = Port(s))
               [] x.net = "unix" -> o.net = "unix" /\ o.addr = x.what
               [] OTHER -> o.addr = x.what
  /\ dead' = (o.res # "open")
  /\ opened' = (IF x.res = "open" THEN opened \cup {Taken(s)} ELSE opened)
  /\ Same /\ UNCHANGED <<flag, ready>>
Default(o) == Socket(flag, o)
Ready == ready' = TRUE /\ Same /\ UNCHANGED <<flag, opened, dead>>
\* the process has ended; what it leaves behind: messages to Einhorn, paths made
End(how, acks, made) ==
  /\ Strict("C31") => /\ how = (IF dead THEN "fatal" ELSE "ok")
                      /\ made = {p \in opened : \E n \in Names : p = dir \o n}
  /\ Strict("C32") => acks = IF ready /\ Einhorn > 0 THEN <<pid>> ELSE <<>>
  /\ UNCHANGED bvars
=============================================================================

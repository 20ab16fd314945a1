------------------------------ MODULE BindGen ------------------------------
(* All environments and, for some of them, all short lives of a process; each *)
(* is printed as a stimulus.  This process is 1001, its parent 1000.          *)
EXTENDS Bind, GenUtil

CONSTANTS Part,   \* "env" or "life"
          MaxOps
VARIABLES hist
vars == <<bvars, hist>>
all(p) == TRUE

None == "absent"
Over == {None, "", "/run/x", "fd@9"}
Ids(me) == {None, "", "12a", me, "999999"}
Counts == {None, "", "x", "0", "1", "3", "-1"}
Ports == {None, "", "9000", "http"}
Life == {None}
Envs == IF Part = "env"
  THEN [GOJI_BIND : Over, EINHORN_MASTER_PID : Ids("1000") \cup {"1001"}, EINHORN_FD_COUNT : Counts, LISTEN_PID : Ids("1001") \cup {"1000"}, LISTEN_FDS : Counts, PORT : Ports]
  ELSE [GOJI_BIND : {None, "127.0.0.1:0"}, EINHORN_MASTER_PID : {None, "1000", "999999"}, EINHORN_FD_COUNT : {"2"}, LISTEN_PID : {None, "1001"}, LISTEN_FDS : {"1"}, PORT : {None, "0"}]
Socks == {":0", "/D/u1", "./sub/u2", "fd@4", "einhorn@0", "einhorn@1", "einhorn@2", "x"}
Init ==
  \E e \in Envs :
    /\ env = LET n == {x \in DOMAIN e : e[x] # None} IN [x \in n |-> e[x]] @@ ("EINHORN_FD_0" :> "4" @@ "EINHORN_FD_1" :> "6" @@ "EINHORN_FD_2" :> "3")
    /\ pid = 1001 /\ ppid = 1000 /\ dir = "/D"
    /\ passed = (3 :> "a3" @@ 4 :> "a4" @@ 5 :> "" @@ 6 :> "a6" @@ 7 :> "a7")
    /\ flag = "" /\ opened = {} /\ ready = FALSE /\ dead = FALSE /\ hist = <<>>
Do(op, s) == hist' = Append(hist, [op |-> op, s |-> s])
Result(s) == LET x == Open(s) IN [res |-> x.res, net |-> x.net, addr |-> x.what, host |-> x.what, port |-> IF x.net = "tcp" THEN Port(s) ELSE 0]
Out == Emit("STIM", [env |-> env, cmds |-> hist])
Unused(s) == Open(s).res = "open" /\ Colons(s) = {} => Taken(s) \notin opened
Next ==
  /\ ~dead /\ Len(hist) < MaxOps
  /\ IF Part = "env" THEN WithFlag("default", IF Sniffed = "" THEN "default" ELSE Sniffed) /\ Do("flag", "default")
     ELSE \/ \E s \in Socks : Unused(s) /\ Socket(s, Result(s)) /\ Do("sock", s)
          \/ flag = "" /\ WithFlag(":0", IF Sniffed = "" THEN ":0" ELSE Sniffed) /\ Do("flag", ":0")
          \/ flag # "" /\ ~(\E i \in 1..Len(hist) : hist[i].op = "parse") /\ Parse("./u2") /\ Do("parse", "./u2")
          \/ flag # "" /\ Unused(flag) /\ Default(Result(flag)) /\ Do("dsock", "")
          \/ ~ready /\ Ready /\ Do("ready", "")
  /\ Out'
\* what is found in the environment can be opened; nothing is opened twice
Opens == Sniffed \in {"einhorn@0", "fd@3"} => Open(Sniffed).res = "open"
Order == /\ (Sniffed = "einhorn@0" => Num(Get("EINHORN_MASTER_PID")) = ppid)
         /\ (Sniffed = "fd@3" => Num(Get("LISTEN_PID")) = pid /\ Einhorn = 0)
         /\ (Sniffed = "" => Get("PORT") = "" /\ Systemd = 0 /\ Einhorn = 0)
OursArePassed == Einhorn <= 3 /\ Systemd <= 3 => \A f \in Ours : f \in DOMAIN passed
=============================================================================

------------------------------- MODULE TopRun -------------------------------
(* A process that serves the default mux: where its requests go, what it      *)
(* announces, and how it shuts down.  Every step is taken when the process    *)
(* has come to rest.                                                          *)
(*                                                                            *)
(* boot: how the process listens ("listener", "tls": given; "flag", "env",    *)
(* "port", "einhorn"), own: the program has replaced the default mux.         *)
(* conns: id -> "idle" (nothing under way), "goji" or "mux" (being answered,  *)
(* by whom).                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES boot,
          phase,     \* "up"; "draining": no longer listening; "done"; "failed"
          conns,
          late,      \* handlers have been added while serving
          forced,
          sigs       \* signals so far
rvars == <<boot, phase, conns, late, forced, sigs>>

Empty == [c \in {} |-> ""]
RInit == phase = "up" /\ conns = Empty /\ late = FALSE /\ forced = FALSE /\ sigs = 0

GojiPaths == {"/goji", "/panic", "/nope"} \cup (IF late THEN {"/late"} ELSE {})
MuxPaths == {"/debug/x"} \cup (IF late THEN {"/debug/late"} ELSE {})
\* who answers, and what
By(path) == IF path \in MuxPaths THEN "mux" ELSE "goji"
Answer(path) ==
  CASE path \in MuxPaths -> "mux"
    [] path \in {"/goji"} \cup (IF late THEN {"/late"} ELSE {}) -> "goji"
    [] path = "/panic" -> IF boot.own THEN "none" ELSE "500"
    [] OTHER -> "404"
Busy == {c \in DOMAIN conns : conns[c] # "idle"}
Without(c) == [k \in DOMAIN conns \ {c} |-> conns[k]]
With(c, x) == [k \in DOMAIN conns \cup {c} |-> IF k = c THEN x ELSE conns[k]]
\* the default stack logs what goes through it
Started(by) == IF by = "goji" /\ ~boot.own THEN <<"Started+id">> ELSE <<>>
Returning(by, res) == IF by = "goji" /\ ~boot.own THEN <<"Returning+id " \o (IF res \in {"404", "500"} THEN res ELSE "200")>> ELSE <<>>
Signals == {"INT"} \cup (IF boot.how = "einhorn" THEN {"USR2"} ELSE {})

\* x: the outcome
Req(c, path, x) ==
  /\ c \notin Busy
  /\ IF phase = "up" THEN x = [res |-> Answer(path), lines |-> Returning(By(path), Answer(path)) \o Started(By(path))] /\ conns' = IF x.res = "none" THEN Without(c) ELSE With(c, "idle")
     ELSE x = [res |-> "none", lines |-> <<>>] /\ UNCHANGED conns
  /\ UNCHANGED <<boot, phase, late, forced, sigs>>
Mute(c, x) == c \notin DOMAIN conns /\ x.lines = <<>> /\ conns' = (IF phase = "up" THEN With(c, "idle") ELSE conns) /\ UNCHANGED <<boot, phase, late, forced, sigs>>
Slow(c, by, x) ==
  /\ c \notin Busy
  /\ IF phase = "up" THEN x = [res |-> "started", lines |-> Started(by)] /\ conns' = With(c, by)
     ELSE x = [res |-> "none", lines |-> <<>>] /\ UNCHANGED conns
  /\ UNCHANGED <<boot, phase, late, forced, sigs>>
\* what is being answered is answered, except after a forced shutdown
Rest(cs) == IF phase = "draining" /\ cs = Empty THEN "done" ELSE phase
Release(c, x) ==
  /\ c \in Busy
  /\ x = [res |-> conns[c], lines |-> Returning(conns[c], "200")]
  /\ conns' = IF phase = "up" THEN With(c, "idle") ELSE Without(c)
  /\ phase' = Rest(conns')
  /\ UNCHANGED <<boot, late, forced, sigs>>
\* force: the signal closely follows another
Signal(s, force, x) ==
  /\ s \in Signals /\ phase \in {"up", "draining"} /\ x.lines = <<>>
  /\ conns' = IF force THEN Empty ELSE [c \in Busy |-> conns[c]]
  /\ forced' = (forced \/ force)
  /\ phase' = IF conns' = Empty THEN "done" ELSE "draining"
  /\ sigs' = sigs + 1
  /\ UNCHANGED <<boot, late>>
Late(x) == late' = TRUE /\ x.lines = <<>> /\ UNCHANGED <<boot, phase, conns, forced, sigs>>
Wait(x) == x.lines = <<>> /\ UNCHANGED rvars
\* the listener fails for good
Break(x) == phase = "up" /\ phase' = "failed" /\ x.lines = <<>> /\ UNCHANGED <<boot, conns, late, forced, sigs>>

\* what is to be seen of the process
Alive == phase \in {"up", "draining"}
Returned == phase = "done"
Acks == IF boot.how = "einhorn" THEN 1 ELSE 0
=============================================================================

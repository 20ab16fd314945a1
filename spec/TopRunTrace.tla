----------------------------- MODULE TopRunTrace -----------------------------
(* TopRun driven by recorded traces.                                          *)
(*  boot how own parsed probe s | req c path | mute c | slow c path |         *)
(*  release c | sig s gap | late | wait ms | break, all with                     *)
(*    res: what was answered ("none": the connection was closed or refused)   *)
(*    lines: what the default stack logged                                    *)
(*    alive, exit: the process; returned: the function has returned           *)
(*    sig, stop: announced that it shuts down, that it has shut down (times)  *)
(*    acks: times readiness was announced; open: open connections             *)
EXTENDS TopRun, TraceUtil, Json

VARIABLES tid, l
Ok(b, why) == IF b THEN TRUE ELSE Rej(tid, l + 1, why)
Range(s) == {s[i] : i \in 1..Len(s)}
Seen(e) ==
  /\ Ok(e.alive = Alive', "alive: " \o ToString(Alive'))
  /\ Ok(Alive' \/ (e.returned = Returned' /\ (e.exit = 0) = Returned'), "returned: " \o ToString(Returned'))
  /\ Ok(~Alive' \/ ~e.returned, "has returned")
  /\ Ok(phase' = "failed" \/ Range(e.open) = DOMAIN conns', "open: " \o ToString(DOMAIN conns'))
  /\ Ok(e.acks = Acks', "acks: " \o ToString(Acks'))
  /\ Ok(IF e.op = "boot" THEN e.sig <= 1 /\ e.stop <= 1 ELSE e.sig = (IF sigs' > 0 THEN 1 ELSE 0) /\ e.stop = (IF phase' = "done" THEN 1 ELSE 0), "announcements")
X(e) == [res |-> e.res, lines |-> e.lines]
Want(e) ==
  CASE e.op = "req" -> Answer(e.path) [] e.op = "release" -> IF e.c \in Busy THEN conns[e.c] ELSE "?" [] OTHER -> phase
\* close: definitely within the two seconds; far: definitely not
Force(e) == IF e.gap < 1800 THEN {TRUE} ELSE IF e.gap > 2300 THEN {FALSE} ELSE {TRUE, FALSE}
Step(e) ==
  CASE e.op = "boot" -> UNCHANGED <<boot, conns, late, forced>>
                        /\ IF e.probe THEN Ok(e.res = "goji", "goji") /\ UNCHANGED <<phase, sigs>> ELSE phase' = "done" /\ sigs' = 1
    [] e.op = "req" -> Req(e.c, e.path, X(e))
    [] e.op = "mute" -> Mute(e.c, X(e))
    [] e.op = "slow" -> Slow(e.c, IF e.path = "/slow/" THEN "goji" ELSE "mux", X(e))
    [] e.op = "release" -> Release(e.c, X(e))
    [] e.op = "sig" -> \E f \in Force(e) : Signal(e.s, f, X(e))
    [] e.op = "late" -> Late(X(e))
    [] e.op = "wait" -> Wait(X(e))
    [] e.op = "break" -> Break(X(e))
    [] OTHER -> FALSE
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ RInit
             /\ boot = (IF Traces[tid][1].op = "boot" THEN [how |-> Traces[tid][1].how, own |-> Traces[tid][1].own] ELSE [how |-> "", own |-> FALSE])
TraceNext == /\ l < Len(Traces[tid]) /\ Reached(tid, l)
             /\ LET e == Traces[tid][l + 1] IN Step(e) /\ Seen(e)
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

----------------------------- MODULE TraceUtil -----------------------------
(* Shared by the trace specifications: the recorded traces, the property to  *)
(* be decided, and the messages the orchestration reads.                     *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
Acc(tid) == PrintT("ACC " \o ToString(tid))
\* always FALSE
Rej(tid, n, why) == PrintT("REJ " \o ToString(tid) \o " " \o ToString(n) \o " " \o why) /\ FALSE
\* how far a nondeterministic trace specification got
Reached(tid, n) == IF IOEnv.DIAG # "1" THEN TRUE ELSE PrintT("AT " \o ToString(tid) \o " " \o ToString(n))
=============================================================================

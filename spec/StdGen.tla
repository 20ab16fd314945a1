------------------------------- MODULE StdGen -------------------------------
(* Every small stack over every small request; checks what each layer promises*)
(* of the composition, and prints the requests as stimuli.                    *)
EXTENDS Std, GenUtil

CONSTANTS MaxLayers, Part    \* Part: "addr", "cond", "env"
VARIABLES start
gvars == <<svars, start>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
\* maps with at most the given keys
Partial(D, V) == UNION {[S -> V] : S \in SUBSET D}
None == [x \in {} |-> ""]
Hdrs == CASE Part = "addr" -> {a @@ b : a \in Partial({"X-Forwarded-For"}, {"1.1.1.1", "1.1.1.1,2.2.2.2", "2.2.2.2 , 3.3.3.3", "", ",4.4.4.4", " ", "5.5.5.5|6.6.6.6"}),
                                         b \in Partial({"X-Real-Ip"}, {"7.7.7.7", "", "8.8.8.8|9.9.9.9"})}
          [] Part = "cond" -> Partial({"If-None-Match", "If-Match", "Etag", "If-Range", "If-Modified-Since", "If-Unmodified-Since"}, {"x", "|y"})
          [] Part = "env" -> {None}
Envs == IF Part = "env" THEN {Nil, Env(None), Env("k" :> "v"), Env(("reqID" :> "old") @@ ("urlquery" :> "old"))} ELSE {Nil}
Queries == IF Part = "env" THEN {"", "a=1", "a=1&b=2&a=3", "a=%41+%26&&=x", "a;b=1&c", "a=%zz&b=%4", "%zz=1&a==="} ELSE {""}
Kinds == CASE Part = "addr" -> {"P", "N"} [] Part = "cond" -> {"N"} [] Part = "env" -> {"E", "Q", "I", "P"}
Reqs == {[hdr |-> h, addr |-> "0.0.0.0:1", rsp |-> None, env |-> e, query |-> q] : h \in Hdrs, e \in Envs, q \in Queries}

Init == SInit /\ start = 0
GBegin == rs = [x \in {} |-> 0] /\ start = 0 /\
          \E ls \in SeqsUpTo(Kinds, MaxLayers), q \in Reqs :
             Begin(1, ls, q) /\ start' = q /\ Emit("STIM", [layers |-> ls, q |-> q])
GEnter == 1 \in DOMAIN rs /\ rs[1].pos < Len(rs[1].layers) /\
          \E a \in RealIPs(rs[1].q) : Enter(1, a, "new" \o ToString(rs[1].pos), "p") /\ UNCHANGED start
Next == GBegin \/ GEnter

X == rs[1]
Did(k) == \E i \in 1..X.pos : X.layers[i] = k
Live == 1 \in DOMAIN rs
NonNil == Live /\ (Did("E") \/ Did("Q") \/ Did("I")) => ~X.q.env.nil
KeepsEnv == Live => \A k \in DOMAIN start.env.m \ {"reqID", "urlquery"} : k \in DOMAIN X.q.env.m /\ X.q.env.m[k] = start.env.m[k]
OnlyP == Live /\ ~Did("P") => X.q.addr = start.addr
OnlyN == Live => IF Did("N") THEN DOMAIN X.q.hdr \cap Conditional = {} /\ X.q.rsp = NoCacheHdr
                 ELSE X.q.hdr = start.hdr /\ X.q.rsp = start.rsp
KeepsOthers == Live => \A h \in DOMAIN start.hdr \ Conditional : h \in DOMAIN X.q.hdr /\ X.q.hdr[h] = start.hdr[h]
=============================================================================

------------------------------ MODULE StdTrace ------------------------------
(* Std driven by recorded traces.                                             *)
(*  begin  r, layers, hdr, addr, rsp, nil, env, query                         *)
(*  in     r, pos, hdr, addr, rsp, nil, env, qmap, pre, form                  *)
(*  out    r, pos, rsp, id                                                    *)
(*  end    r, rsp                                                             *)
(*  bulk   n, distinct, prefixes, bad     many requests at once (RequestID)   *)
EXTENDS Std, TraceUtil, Json

VARIABLES tid, l
tvars == <<svars, tid, l>>

E == Traces[tid][l + 1]
PairMap(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = n][2]]
Ok(ok, why) == IF ok THEN TRUE ELSE Rej(tid, l + 1, why)

TBegin == /\ E.op = "begin"
          /\ Begin(E.r, E.layers, [hdr |-> PairMap(E.hdr), addr |-> E.addr, rsp |-> PairMap(E.rsp),
                                   env |-> [nil |-> E.nil, m |-> PairMap(E.env)], query |-> E.query])
TIn == /\ E.op = "in"
       /\ Ok(E.r \in DOMAIN rs, "no such request")
       /\ LET x == rs[E.r]  env == PairMap(E.env) IN
          /\ Ok(x.dir = "in" /\ x.pos < Len(x.layers) /\ E.pos = x.pos + 1, "position " \o ToString(x.pos))
          /\ LET k == x.layers[x.pos + 1]
                 id == IF "reqID" \in DOMAIN env THEN env["reqID"] ELSE ""
                 addr == IF k = "P" /\ E.addr \in RealIPs(x.q) THEN E.addr ELSE IF k = "P" THEN CHOOSE a \in RealIPs(x.q) : TRUE ELSE x.q.addr
                 y == Inside(k, x.q, addr, id)
             IN  /\ Ok(Prop # "C17" \/ k # "I" \/ (id # "" /\ E.form /\ FreshId(id, E.pre)), "a fresh request ID")
                 /\ Ok(y.env.nil = E.nil /\ y.env.m = env, "env: " \o ToJson(y.env))
                 /\ Ok(E.same, "the very environment that was passed in")
                 /\ Ok(Prop = "C17" \/ y.hdr = PairMap(E.hdr), "request headers: " \o ToJson(y.hdr))
                 /\ Ok(Prop = "C17" \/ y.rsp = PairMap(E.rsp), "response headers: " \o ToJson(y.rsp))
                 /\ Ok(Prop = "C17" \/ y.addr = E.addr, "remote address: " \o y.addr)
                 /\ Ok(Prop = "C17" \/ E.rest, "the rest of the request")
                 /\ Ok(Prop = "C17" \/ "urlquery" \notin DOMAIN env \/ x.layers[x.pos + 1] # "Q" \/ PairMap(E.qmap) = QueryMap(x.q.query),
                       "query: " \o ToJson(QueryMap(x.q.query)))
                 /\ Enter(E.r, addr, id, E.pre)
TOut == /\ E.op = "out"
        /\ Ok(E.r \in DOMAIN rs, "no such request")
        /\ LET x == rs[E.r] IN
           /\ Ok((x.dir = "out" \/ x.pos = Len(x.layers)) /\ E.pos = x.pos, "position " \o ToString(x.pos))
           /\ Ok(Prop = "C17" \/ PairMap(E.rsp) = x.q.rsp, "response headers: " \o ToJson(x.q.rsp))
           /\ Ok(Prop # "C17" \/ E.id = (IF "reqID" \in DOMAIN x.q.env.m THEN x.q.env.m["reqID"] ELSE ""), "the request's ID to be constant")
           /\ Leave(E.r)
TEnd == /\ E.op = "end"
        /\ Ok(E.r \in DOMAIN rs /\ rs[E.r].pos = 0, "the request to go on")
        /\ Ok(Prop = "C17" \/ (PairMap(E.rsp) = rs[E.r].q.rsp /\ E.body = "done"), "the response: " \o ToJson(rs[E.r].q.rsp))
        \* the caller sees what became of the environment it passed in
        /\ Ok(E.nil = rs[E.r].nil /\ (~E.nil => PairMap(E.env) = rs[E.r].q.env.m), "env: " \o ToJson(rs[E.r].q.env.m))
        /\ End(E.r)
TBulk == /\ E.op = "bulk"
         /\ Ok(E.distinct = E.n, "as many IDs as requests")
         /\ Ok(E.prefixes = 1, "one prefix")
         /\ Ok(E.bad = 0, "the form of IDs, and the environment")
         /\ UNCHANGED svars

TraceInit == SInit /\ tid \in 1..Len(Traces) /\ l = 0
TraceNext == /\ l < Len(Traces[tid])
             /\ IF E.op \in {"begin", "in", "out", "end", "bulk"} THEN TRUE ELSE Rej(tid, l + 1, "no " \o E.op)
             /\ (TBegin \/ TIn \/ TOut \/ TEnd \/ TBulk)
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

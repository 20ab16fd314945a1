--------------------------- MODULE ResponseTrace ---------------------------
(* Response driven by recorded traces.                                        *)
(*  begin  rq (layers, caps, cap, method, hit, routes, given), real           *)
(*  log    what, id, status                                                   *)
(*  do     o, s, n, impl, rn, rerr, rpanic, acct                              *)
(*  leave  how                                                                *)
(*  done   how, status, body, hdr, allow, infos, flushes, pushes, hijacked,   *)
(*         acct                                                               *)
EXTENDS Response, TraceUtil, Json

VARIABLES tid, l
tvars == <<rvars, tid, l>>

E == Traces[tid][l + 1]
Real == Traces[tid][1].real
SetOf(s) == {s[i] : i \in 1..Len(s)}
PairMap(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = n][2]]
Must1(ok, why) == IF ok THEN TRUE ELSE Rej(tid, l + 1, why)

Relevant(w) == CASE Prop = "C15" -> w \in {"panic", "done"}
                 [] Prop = "C18" -> w \in {"start", "end", "done"}
                 [] OTHER -> w = "done"
Keep(x) == Relevant(x.what)
Due == SelectSeq(due, Keep)
DropFirst == LET i == CHOOSE i \in 1..Len(due) : Keep(due[i]) /\ \A j \in 1..(i - 1) : ~Keep(due[j]) IN
             SubSeq(due, i + 1, Len(due))

Wrappers == SelectSeq([i \in 1..Len(rq.layers) |-> i], LAMBDA i : rq.layers[i] = "W")
\* accounts: [status, bytes, tees] of every W layer, outermost first
AcctOk(s, acct) ==
  s.cl.hijacked \/
  \A j \in 1..Len(Wrappers) :
     LET y == s.ly[Wrappers[j]]  a == acct[j] IN
     a.status = y.code /\ a.bytes = y.bytes /\ PairMap(a.tees) = y.tees
Accts(s) == [j \in 1..Len(Wrappers) |-> LET y == s.ly[Wrappers[j]] IN [status |-> y.code, bytes |-> y.bytes, tees |-> y.tees]]

TBegin == /\ E.op = "begin"
          /\ Begin([layers |-> E.rq.layers, caps |-> E.rq.caps, cap |-> E.rq.cap, method |-> E.rq.method, hit |-> E.rq.hit,
                    routes |-> SetOf(E.rq.routes), given |-> E.rq.given])
TLog == /\ E.op = "log"
        /\ IF ~Relevant(E.what) THEN UNCHANGED rvars
           ELSE /\ Must1(Due # <<>> /\ Due[1].what = E.what, "log line: " \o ToJson(Due))
                /\ Must1(Due[1].id = E.id, "request ID: " \o Due[1].id)
                /\ Must1(E.what # "end" \/ st.cl.hijacked \/ Due[1].status = E.status, "status: " \o ToString(Due[1].status))
                /\ due' = DropFirst /\ UNCHANGED <<rq, st, phase>>
TDo == /\ E.op = "do"
       /\ Must1(HandlerRuns, "nothing: the request has been stopped")
       /\ Must1(Due = <<>>, "log line first: " \o ToJson(Due))
       /\ LET i == Len(rq.layers)  n == Needs(E)  r == Op(st, i, E) IN
          IF ~E.impl THEN Must1(~Must(i, n), "the writer can " \o n) /\ UNCHANGED rvars
          ELSE /\ Must1(n \in {"", "pu"} \/ Can(i, n), "the writer cannot " \o n)
               /\ Must1(E.rpanic = r.panic, "panic: " \o ToString(r.panic))
               /\ Must1(E.o \in {"tee", "panic"} \/ st.cl.hijacked \/ (E.rn = r.n /\ E.rerr = r.err),
                        "result: " \o ToJson([n |-> r.n, err |-> r.err]))
               /\ Do(E)
               /\ Must1(Prop # "C14" \/ AcctOk(st', E.acct), "accounts: " \o ToJson(Accts(st')))
TLeave == /\ E.op = "leave"
          /\ Must1(phase = "run", "no second handler")
          /\ Leave(E.how)
Sent(s) == IF s.cl.status = 0 /\ ~s.cl.hijacked /\ Real THEN [s.cl EXCEPT !.status = 200, !.hdr = s.hdr] ELSE s.cl
HdrOk(c, h) ==
  LET ks == IF Real THEN {"X-A", "X-B", "Allow"} \cup (DOMAIN c.hdr \cap {"Content-Type"})
            ELSE DOMAIN c.hdr \cup DOMAIN h
  IN  \A k \in ks : IF k \in DOMAIN c.hdr THEN k \in DOMAIN h /\ h[k] = c.hdr[k] ELSE k \notin DOMAIN h
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the response to a HEAD request has no body
BodyOf(c) == IF Real /\ rq.method = "HEAD" THEN "" ELSE c.body
TDone == /\ E.op = "done"
         /\ Must1(phase = "over", "the handler to run")
         /\ Must1(Len(Due) = 1, "log line: " \o ToJson(Due))
         /\ Must1(E.how = Due[1].id, "outcome: " \o Due[1].id)
         /\ LET c == Sent(st) IN
            Must1(\/ c.hijacked /\ E.hijacked
                  \/ /\ E.hijacked = c.hijacked
                     /\ E.status = c.status /\ E.infos = c.infos
                     /\ (IF c.loose THEN Prefix(BodyOf(c), E.body) ELSE E.body = BodyOf(c))
                     /\ HdrOk(c, PairMap(E.hdr))
                     /\ (IF "Allow" \in DOMAIN c.hdr /\ c.hdr["Allow"] = "*"
                         THEN SetOf(E.allow) = Valid(rq) \cup {"OPTIONS"} /\ Len(E.allow) = Cardinality(Valid(rq) \cup {"OPTIONS"})
                         ELSE TRUE)
                     /\ (Real \/ (E.flushes = c.flushes /\ E.pushes = c.pushes)),
                  "client: " \o ToJson(c))
         /\ Must1(Prop # "C14" \/ AcctOk(st, E.acct), "accounts: " \o ToJson(Accts(st)))
         /\ UNCHANGED <<rq, st, phase>> /\ due' = <<>>

TraceInit == RInit /\ tid \in 1..Len(Traces) /\ l = 0
TraceNext == /\ l < Len(Traces[tid])
             /\ IF E.op \in {"begin", "log", "do", "leave", "done"} THEN TRUE ELSE Rej(tid, l + 1, "no " \o E.op)
             /\ (TBegin \/ TLog \/ TDo \/ TLeave \/ TDone)
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l' = Len(Traces[tid]) => Acc(tid))
=============================================================================

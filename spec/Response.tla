------------------------------ MODULE Response ------------------------------
(* One request on its way through a stack of response-handling layers, and    *)
(* the response on its way back.                                              *)
(*   L  Logger          wraps the writer (transparently), logs start and end  *)
(*   W  WrapWriter      wraps the writer, accounts are read and tees are set  *)
(*   R  Recoverer       catches panics                                        *)
(*   A  AutomaticOptions filters the response of OPTIONS requests             *)
(*   I  RequestID       sets the request's ID                                 *)
(*   B, Z               user middleware which panics before / after the rest  *)
(* Layer 1 is the outermost; the client's own writer is level 0.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES rq,    \* the request and its environment (constant while it runs)
          st,    \* the state of the response: client, headers, layers
          due,   \* log lines and IDs which are to appear next
          phase  \* "idle", "run", "over"
rvars == <<rq, st, due, phase>>

Std == {"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}
NoMap == [x \in {} |-> ""]
Del(h, ks) == [k \in DOMAIN h \ ks |-> h[k]]
Max0(n) == IF n < 0 THEN 0 ELSE n
Min2(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* The request: which methods are routed, and hence who answers            *)
(***************************************************************************)
Routed(routes) == routes \cup (IF "GET" \in routes THEN {"HEAD"} ELSE {})
\* the list the router leaves for the not-found handler (empty: none)
Valid(r) == IF r.hit /\ r.method \notin Routed(r.routes) THEN Routed(r.routes) ELSE {}
Matched(r) == r.hit /\ r.method \in Routed(r.routes)

\* The ID a layer at position i finds on entry: "none", "given", or <<"id", j>>
\* printed as a string "idJ".
IdAt(r, i) ==
  LET S == {j \in 1..(i - 1) : r.layers[j] = "I"} IN
  IF S # {} THEN "id" \o ToString(CHOOSE j \in S : \A k \in S : k <= j)
  ELSE IF r.given = "given" THEN "given" ELSE "none"

(***************************************************************************)
(* The client's own writer (net/http's, as far as it matters)              *)
(***************************************************************************)
Client0 == [status |-> 0, body |-> "", hdr |-> NoMap, infos |-> <<>>, flushes |-> 0, pushes |-> <<>>, hijacked |-> FALSE, loose |-> FALSE]
Layer0(k) == [kind |-> k, code |-> 0, bytes |-> 0, tee |-> "", tees |-> NoMap, supp |-> FALSE]
St0(r) == [cl |-> Client0, hdr |-> NoMap, ly |-> [i \in 1..Len(r.layers) |-> Layer0(r.layers[i])]]

Bad(code) == code < 100 \/ code > 999
Info(code) == code < 200 /\ code # 101
NoBody(code) == code < 200 \/ code = 204 \/ code = 304

\* Operations take a state and return one, with the result: [st, n, err, panic]
Res(s, n, err) == [st |-> s, n |-> n, err |-> err, panic |-> FALSE]
Boom(s) == [st |-> s, n |-> 0, err |-> FALSE, panic |-> TRUE]

CWriteHeader(s, code) ==
  IF s.cl.hijacked \/ s.cl.status # 0 THEN s
  ELSE IF Info(code) THEN [s EXCEPT !.cl.infos = Append(@, code)]
  ELSE [s EXCEPT !.cl.status = code, !.cl.hdr = s.hdr]
CWrite(s0, data) ==
  IF s0.cl.hijacked THEN Res(s0, 0, TRUE) ELSE
  LET s == CWriteHeader(s0, 200)
      n == Min2(Len(data), Max0(rq.cap - Len(s.cl.body)))
  IN  IF data = "" THEN Res(s, 0, FALSE)
      ELSE IF NoBody(s.cl.status) THEN Res(s, 0, TRUE)
      ELSE Res([s EXCEPT !.cl.body = @ \o SubSeq(data, 1, n)], n, n < Len(data))

(***************************************************************************)
(* The layers.  i is the level whose writer is used: the one handed out by *)
(* the innermost of layers 1..i that wraps it.                             *)
(***************************************************************************)
Wraps(k) == k \in {"L", "W"}
Filters(k) == k = "A" /\ rq.method = "OPTIONS"

\* A layer that wraps the writer is transparent; it knows the first final status that went
\* through it.
RECURSIVE WH(_, _, _)
WH(s, i, code) ==
  IF i = 0 THEN CWriteHeader(s, code) ELSE
  LET y == s.ly[i]  t == WH(s, i - 1, code) IN
  CASE Wraps(y.kind) -> IF ~Info(code) /\ y.code = 0 THEN [t EXCEPT !.ly[i].code = code] ELSE t
    [] Filters(y.kind) ->
         IF y.supp THEN s
         ELSE IF y.code = 0 /\ code = 404 /\ Valid(rq) # {}
         THEN WH([s EXCEPT !.ly[i].supp = TRUE, !.ly[i].code = 200,
                           !.hdr = ("Allow" :> "*") @@ Del(@, {"Content-Length"})], i - 1, 200)
         ELSE IF ~Info(code) /\ y.code = 0 THEN [t EXCEPT !.ly[i].code = code] ELSE t
    [] OTHER -> t
\* before the first byte, and before a flush
Imply(s, i) == WH(s, i, 200)

TeeTo(y, data) == IF y.tee = "" THEN y
                  ELSE [y EXCEPT !.tees = (y.tee :> (y.tees[y.tee] \o data)) @@ @]
RECURSIVE Wr(_, _, _)
Wr(s0, i, data) ==
  IF i = 0 THEN CWrite(s0, data) ELSE
  LET y == s0.ly[i] IN
  CASE Wraps(y.kind) ->
         LET s == Imply(s0, i)  r == Wr(s, i - 1, data)  b == TeeTo(r.st.ly[i], SubSeq(data, 1, r.n)) IN
         [r EXCEPT !.st.ly[i] = [b EXCEPT !.bytes = @ + r.n]]
    [] Filters(y.kind) ->
         IF y.supp THEN Res(s0, Len(data), FALSE)
         ELSE Wr(IF y.code = 0 THEN [s0 EXCEPT !.ly[i].code = 200] ELSE s0, i - 1, data)
    [] OTHER -> Wr(s0, i - 1, data)

\* What the writer at level i can do.  must: it has to be able to; may: it is allowed to.
RECURSIVE Must(_, _)
Must(i, what) ==
  IF i = 0 THEN rq.caps[what] ELSE
  CASE Filters(rq.layers[i]) -> FALSE
    [] Wraps(rq.layers[i]) /\ what \in {"hj", "rf"} -> Must(i - 1, "fl") /\ Must(i - 1, "hj") /\ Must(i - 1, "rf")
    [] OTHER -> Must(i - 1, what)
RECURSIVE Can(_, _)
Can(i, what) == IF i = 0 THEN rq.caps[what] ELSE Can(i - 1, what)

RECURSIVE Flush(_, _)
Flush(s0, i) ==
  IF i = 0 THEN IF s0.cl.hijacked THEN s0 ELSE [CWriteHeader(s0, 200) EXCEPT !.cl.flushes = @ + 1]
  ELSE IF Wraps(s0.ly[i].kind) \/ Filters(s0.ly[i].kind) THEN Flush(Imply(s0, i), i - 1) ELSE Flush(s0, i - 1)

\* One operation of whoever has the writer at level i:
\*  [o, s, n]   s: data, header, tee or target;  n: code, value, level
Op(s, i, e) ==
  CASE e.o = "hset" -> Res([s EXCEPT !.hdr = (e.s :> ToString(e.n)) @@ @], 0, FALSE)
    [] e.o = "hdel" -> Res([s EXCEPT !.hdr = Del(@, {e.s})], 0, FALSE)
    [] e.o = "wh" -> \* an impossible status is refused as long as it would have been the status
         IF Bad(e.n) THEN (IF s.cl.hijacked \/ s.cl.status # 0 THEN Res(s, 0, FALSE) ELSE Boom(s))
         ELSE Res(WH(s, i, e.n), 0, FALSE)
    [] e.o \in {"write", "wstr"} -> Wr(s, i, e.s)
    [] e.o = "copy" ->  \* from a source that may fail at its end (n = 1)
         IF e.s = "" THEN Res(s, 0, e.n = 1)
         ELSE LET r == Wr(s, i, e.s) IN [r EXCEPT !.err = @ \/ e.n = 1]
    [] e.o = "flush" -> Res(Flush(s, i), 0, FALSE)
    [] e.o = "push" ->
         IF ~Can(i, "pu") THEN Res(s, 0, TRUE)
         ELSE Res([s EXCEPT !.cl.pushes = Append(@, e.s)], 0, e.n = 1)
    [] e.o = "hijack" -> IF s.cl.hijacked THEN Res(s, 0, TRUE) ELSE Res([s EXCEPT !.cl.hijacked = TRUE], 0, FALSE)
    [] e.o = "tee" -> Res([s EXCEPT !.ly[e.n].tee = e.s,
                                    !.ly[e.n].tees = IF e.s = "" \/ e.s \in DOMAIN @ THEN @ ELSE (e.s :> "") @@ @], 0, FALSE)
    [] e.o = "panic" -> Boom(s)
Needs(e) == CASE e.o = "flush" -> "fl" [] e.o = "push" -> "pu" [] e.o = "hijack" -> "hj" [] OTHER -> ""

(***************************************************************************)
(* The way in and the way out                                              *)
(***************************************************************************)
LogStart(r, i) == [what |-> "start", id |-> IdAt(r, i), status |-> 0]
LogEnd(r, i, code) == [what |-> "end", id |-> IdAt(r, i), status |-> code]
LogPanic(r, i) == [what |-> "panic", id |-> IdAt(r, i), status |-> 0]
\* how deep the request gets before user middleware panics
Reach(r) == LET S == {i \in 1..Len(r.layers) : r.layers[i] = "B"} IN
            IF S = {} THEN Len(r.layers) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Starts(_, _)
Starts(r, i) == IF i > Len(r.layers) \/ i >= Reach(r) THEN <<>>
                ELSE (IF r.layers[i] = "L" THEN <<LogStart(r, i)>> ELSE <<>>) \o Starts(r, i + 1)

ErrText == "Internal Server Error" \o "\n"
\* http.Error
Error500(s0, i) ==
  LET s == [s0 EXCEPT !.hdr = ("Content-Type" :> "text/plain; charset=utf-8") @@ ("X-Content-Type-Options" :> "nosniff") @@
                              Del(@, {"Content-Length"})]
  IN  Wr(WH(s, i, 500), i, ErrText).st

\* From layer i outwards; how is "ret" or "pan".  Returns [st, logs, how].
RECURSIVE Unwind(_, _, _)
Unwind(s, i, how) ==
  IF i = 0 THEN [st |-> s, logs |-> <<>>, how |-> how] ELSE
  LET k == rq.layers[i] IN
  CASE k = "L" /\ how = "ret" ->
         LET t == IF s.ly[i].code = 0 THEN WH(s, i, 200) ELSE s
             u == Unwind(t, i - 1, how)
         IN  [u EXCEPT !.logs = <<LogEnd(rq, i, t.ly[i].code)>> \o @]
    [] k = "R" /\ how = "pan" ->
         \* once the final header is sent, more body may or may not follow
         LET t == IF s.cl.status = 0 /\ ~s.cl.hijacked THEN Error500(s, i - 1) ELSE [s EXCEPT !.cl.loose = TRUE]
             u == Unwind(t, i - 1, "ret") IN
         [u EXCEPT !.logs = <<LogPanic(rq, i)>> \o @]
    [] k = "Z" /\ how = "ret" -> Unwind(s, i - 1, "pan")
    [] OTHER -> Unwind(s, i - 1, how)

RInit == rq = [layers |-> <<>>] /\ st = 0 /\ due = <<>> /\ phase = "idle"
Begin(r) ==
  /\ phase \in {"idle", "over"}
  /\ rq' = r /\ st' = St0(r)
  /\ due' = Starts(r, 1)
  /\ phase' = "run"
\* does anybody act, or does a layer panic before?
HandlerRuns == Reach(rq) > Len(rq.layers)
\* the handler does something
Do(e) ==
  /\ phase = "run" /\ HandlerRuns
  /\ st' = Op(st, Len(rq.layers), e).st
  /\ UNCHANGED <<rq, due, phase>>
\* it is done (by returning or by panicking); the layers do the rest
Leave(how) ==
  /\ phase = "run"
  /\ LET u == IF HandlerRuns THEN Unwind(st, Len(rq.layers), how) ELSE Unwind(st, Reach(rq) - 1, "pan") IN
     /\ st' = u.st
     /\ due' = due \o u.logs \o <<[what |-> "done", id |-> u.how, status |-> 0]>>
  /\ phase' = "over"
  /\ UNCHANGED rq
=============================================================================

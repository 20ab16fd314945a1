-------------------------------- MODULE Std --------------------------------
(* The request-preparation middleware: what a request, its response headers   *)
(* and its context look like at every point of a stack of                     *)
(*   E EnvInit   Q URLQuery   P RealIP   N NoCache   I RequestID              *)
(* layers.  Headers are maps from names to "|"-joined values.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES rs,      \* requests under way: id -> [layers, pos, dir, req, env, ...]
          ids,     \* request IDs seen in this process
          prefix   \* their common prefix ("" until the first)
svars == <<rs, ids, prefix>>

Nil == [nil |-> TRUE, m |-> [x \in {} |-> ""]]
Env(m) == [nil |-> FALSE, m |-> m]

(***************************************************************************)
(* Query strings                                                           *)
(***************************************************************************)
At(s, i) == SubSeq(s, i, i)
RECURSIVE Split(_, _)
Split(s, c) ==   \* on every c
  LET I == {i \in 1..Len(s) : At(s, i) = c} IN
  IF I = {} THEN <<s>>
  ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN
       <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
Hex == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |-> TRUE]
\* the few octets the stimuli use
Octet == ("41" :> "A") @@ ("42" :> "B") @@ ("26" :> "&") @@ ("3d" :> "=") @@ ("3D" :> "=") @@ ("2B" :> "+") @@ ("2b" :> "+")
         @@ ("3b" :> ";") @@ ("20" :> " ") @@ ("25" :> "%")
BadEscape == "!"   \* cannot occur in an unescaped query of the stimuli
RECURSIVE Unesc(_)
Unesc(s) ==
  IF s = "" THEN ""
  ELSE IF At(s, 1) = "+" THEN " " \o Unesc(SubSeq(s, 2, Len(s)))
  ELSE IF At(s, 1) # "%" THEN At(s, 1) \o Unesc(SubSeq(s, 2, Len(s)))
  ELSE IF Len(s) >= 3 /\ SubSeq(s, 2, 3) \in DOMAIN Octet THEN Octet[SubSeq(s, 2, 3)] \o Unesc(SubSeq(s, 4, Len(s)))
  ELSE BadEscape
HasC(s, c) == \E i \in 1..Len(s) : At(s, i) = c
RECURSIVE Parse(_)
Parse(segs) ==   \* a sequence of <<key, value>>
  IF segs = <<>> THEN <<>> ELSE
  LET s == Head(segs)  kv == Split(s, "=")  k == Unesc(kv[1])
      v == IF Len(kv) = 1 THEN "" ELSE Unesc(SubSeq(s, Len(kv[1]) + 2, Len(s)))
      here == IF s = "" \/ HasC(s, ";") \/ HasC(k, BadEscape) \/ HasC(v, BadEscape) THEN <<>> ELSE << <<k, v>> >>
  IN  here \o Parse(Tail(segs))
Query(q) == Parse(Split(q, "&"))
Keys(kvs) == {kvs[i][1] : i \in 1..Len(kvs)}
RECURSIVE Joined(_, _)
Joined(kvs, k) ==
  IF kvs = <<>> THEN "" ELSE
  (IF Head(kvs)[1] = k THEN "|" \o Head(kvs)[2] ELSE "") \o Joined(Tail(kvs), k)
\* name -> "|v1|v2..."
QueryMap(q) == LET kvs == Query(q) IN [k \in Keys(kvs) |-> Joined(kvs, k)]

(***************************************************************************)
(* Layers                                                                  *)
(***************************************************************************)
Conditional == {"Etag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since"}
NoCacheHdr == ("Expires" :> "epoch") @@ ("Cache-Control" :> "no-cache, private, max-age=0")
              @@ ("Pragma" :> "no-cache") @@ ("X-Accel-Expires" :> "0")

RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN "" ELSE IF At(s, 1) = " " THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF At(s, Len(s)) = " " THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
FirstVal(h, k) == IF k \in DOMAIN h THEN Split(h[k], "|")[1] ELSE ""
\* the addresses a request may have after RealIP
RealIPs(q) ==
  LET x == FirstVal(q.hdr, "X-Forwarded-For")  r == FirstVal(q.hdr, "X-Real-Ip")
      f == Trim(Split(x, ",")[1])
      alt == IF r # "" THEN r ELSE q.addr
  IN  IF x = "" THEN {alt} ELSE IF f # "" THEN {f} ELSE {q.addr, alt}

\* q: [hdr, addr, rsp, env, query]; the state inside the layer (addr: after the layer; id: the ID)
Inside(k, q, addr, id) ==
  CASE k = "E" -> [q EXCEPT !.env.nil = FALSE]
    [] k = "Q" -> [q EXCEPT !.env = [nil |-> FALSE, m |-> ("urlquery" :> "query") @@ q.env.m]]
    [] k = "P" -> [q EXCEPT !.addr = addr]
    [] k = "N" -> [q EXCEPT !.hdr = [h \in DOMAIN q.hdr \ Conditional |-> q.hdr[h]], !.rsp = NoCacheHdr @@ q.rsp]
    [] k = "I" -> [q EXCEPT !.env = [nil |-> FALSE, m |-> ("reqID" :> id) @@ q.env.m]]

SInit == rs = [x \in {} |-> 0] /\ ids = {} /\ prefix = ""
Begin(r, layers, q) ==
  /\ r \notin DOMAIN rs
  /\ rs' = (r :> [layers |-> layers, pos |-> 0, dir |-> "in", q |-> q, nil |-> q.env.nil]) @@ rs
  /\ UNCHANGED <<ids, prefix>>
\* the request is inside its next layer; what it is like there: addr, id (and the ID's prefix)
Enter(r, addr, id, pre) ==
  LET x == rs[r]  k == x.layers[x.pos + 1] IN
  /\ x.dir = "in" /\ x.pos < Len(x.layers)
  /\ rs' = [rs EXCEPT ![r].pos = @ + 1, ![r].q = Inside(k, x.q, addr, id)]
  /\ IF k = "I" THEN ids' = ids \cup {id} /\ prefix' = pre ELSE UNCHANGED <<ids, prefix>>
FreshId(id, pre) == id \notin ids /\ (prefix = "" \/ pre = prefix)
\* everything inside has returned; seen again from inside layer pos
Leave(r) ==
  LET x == rs[r] IN
  /\ x.dir = "out" \/ x.pos = Len(x.layers)
  /\ rs' = [rs EXCEPT ![r].dir = "out", ![r].pos = @ - 1]
  /\ UNCHANGED <<ids, prefix>>
End(r) == rs' = [x \in DOMAIN rs \ {r} |-> rs[x]] /\ UNCHANGED <<ids, prefix>>
=============================================================================

---------------------------- MODULE ResponseGen ----------------------------
(* Bounded exploration of Response: every stack of layers of a family, every  *)
(* client, every short program of the handler.  Checks the design and prints  *)
(* every complete behaviour as a stimulus.                                    *)
EXTENDS Response, GenUtil

CONSTANTS Family, MaxLayers, Depth

VARIABLES prog,    \* what the handler did
          direct   \* the same without any layer
gvars == <<rvars, prog, direct>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Has(ls, k) == \E i \in 1..Len(ls) : ls[i] = k
Kinds == CASE Family = "C14" -> {"W"} [] Family = "C15" -> {"R", "L", "A", "B", "Z", "I"}
           [] Family = "C16" -> {"A", "L", "W"} [] Family = "C18" -> {"L", "I", "R", "W"}
Key == CASE Family = "C14" -> "W" [] Family = "C15" -> "R" [] Family = "C16" -> "A" [] Family = "C18" -> "L"
Layerings == {ls \in SeqsUpTo(Kinds, MaxLayers) : Has(ls, Key)}
Caps(f, h, r, p) == [fl |-> f, hj |-> h, rf |-> r, pu |-> p]
CapSets == IF Family = "C14" THEN {Caps(f, h, r, p) : f, h, r, p \in BOOLEAN} \ {Caps(FALSE, h, r, TRUE) : h, r \in BOOLEAN}
           ELSE {Caps(TRUE, TRUE, TRUE, FALSE)}
CapsNeed == IF Family = "C14" THEN {3, 100} ELSE {100}
Requests == IF Family = "C16"
            THEN {<<m, h, r>> : m \in {"OPTIONS", "GET"}, h \in BOOLEAN, r \in {{}, {"GET"}, {"POST", "PUT"}, {"OPTIONS", "POST"}}}
            ELSE {<<"GET", TRUE, {"GET"}>>, <<"OPTIONS", TRUE, {"GET"}>>}
Begins == {[layers |-> ls, caps |-> c, cap |-> n, method |-> q[1], hit |-> q[2], routes |-> q[3], given |-> g] :
             ls \in Layerings, c \in CapSets, n \in CapsNeed,
             q \in (IF Family = "C14" THEN {<<"GET", TRUE, {"GET"}>>} ELSE Requests),
             g \in (IF Family = "C18" THEN {"none", "given"} ELSE {"none"})}
O(o, s, n) == [o |-> o, s |-> s, n |-> n]
Ops == CASE Family = "C14" ->
              {O("wh", "", 200), O("wh", "", 404), O("wh", "", 103), O("wh", "", 204), O("wh", "", 101), O("wh", "", 0),
               O("write", "ab", 0), O("write", "", 0), O("copy", "cde", 0), O("copy", "", 0), O("copy", "fg", 1),
               O("flush", "", 0), O("push", "/x", 0), O("hijack", "", 0), O("hset", "X-A", 1),
               O("tee", "t1", 1), O("tee", "", 1)}
         [] Family = "C16" ->
              {O("wh", "", 200), O("wh", "", 404), O("wh", "", 103), O("write", "ab", 0), O("hset", "Content-Length", 2),
               O("hset", "Allow", 7)}
         [] Family = "C15" ->
              {O("wh", "", 404), O("wh", "", 103), O("write", "ab", 0), O("hset", "Content-Length", 2), O("wh", "", 1)}
         [] Family = "C18" ->
              {O("wh", "", 404), O("wh", "", 103), O("write", "ab", 0), O("flush", "", 0), O("copy", "x", 0), O("wh", "", 0)}

Init == RInit /\ prog = <<>> /\ direct = 0
GBegin == phase = "idle" /\ \E r \in Begins : Begin(r) /\ direct' = St0(r) /\ UNCHANGED prog
Possible(e) == LET n == Needs(e) IN IF n \in {"", "pu"} THEN TRUE ELSE Must(Len(rq.layers), n)
GDo == /\ phase = "run" /\ HandlerRuns /\ Len(prog) < Depth
       /\ \E e \in Ops : /\ Possible(e)
                         /\ ~Op(st, Len(rq.layers), e).panic
                         /\ Do(e)
                         /\ direct' = IF e.o = "tee" THEN direct ELSE Op(direct, 0, e).st
                         /\ prog' = Append(prog, e)
Hows == IF Family \in {"C15", "C18"} THEN {"ret", "pan"} ELSE {"ret"}
GLeave == /\ phase = "run"
          /\ \E how \in Hows : Leave(how) /\ Emit("STIM", [rq |-> rq, prog |-> prog, how |-> how])
          /\ UNCHANGED <<prog, direct>>
\* a status which is refused ends a program
GBoom == /\ phase = "run" /\ HandlerRuns
         /\ \E e \in Ops : Op(st, Len(rq.layers), e).panic /\ Leave("pan")
                           /\ Emit("STIM", [rq |-> rq, prog |-> Append(prog, e), how |-> "pan"])
         /\ UNCHANGED <<prog, direct>>
Next == GBegin \/ GDo \/ GLeave \/ GBoom

Running == phase \in {"run"}
Only(S) == \A i \in 1..Len(rq.layers) : rq.layers[i] \in S
\* layers that wrap or catch do not change what the client gets
Transparent == Running /\ Only({"L", "W", "R", "I"}) =>
                 st.cl = direct.cl /\ st.hdr = direct.hdr
\* the accounts of a wrapper right on top of the client are the client's
TrueAccounts == (Running /\ rq.layers[1] = "W" /\ ~st.cl.hijacked) =>
                  st.ly[1].code = st.cl.status /\ st.ly[1].bytes = Len(st.cl.body)
\* a recovered panic gives a complete 500 unless something else was sent before
Recovered == (phase = "over" /\ \E i \in 1..Len(due) : due[i].what = "panic") =>
               /\ st.cl.status # 0
               /\ (direct.cl.status = 0 /\ HandlerRuns /\ Only({"R", "L", "I"})) =>
                    st.cl.status = 500 /\ st.cl.body = ErrText
Caught == (phase = "over" /\ rq.layers[1] = "R") => due[Len(due)].id = "ret"
Suppressed == (phase # "idle" /\ \E i \in 1..Len(rq.layers) : st.ly[i].supp) =>
               rq.method = "OPTIONS" /\ Valid(rq) # {} /\ st.cl.status = 200 /\ (~st.cl.loose => st.cl.body = "")
OneStartOneEnd == phase = "over" =>
   \A i \in 1..Len(rq.layers) : rq.layers[i] = "L" =>
      Cardinality({j \in 1..Len(due) : due[j].what = "end"}) <= Cardinality({j \in 1..Len(due) : due[j].what = "start"})
StatusFinal == [][phase = "run" /\ st.cl.status # 0 => st'.cl.status = st.cl.status /\ Len(st'.cl.body) >= Len(st.cl.body)]_gvars
=============================================================================

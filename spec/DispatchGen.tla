----------------------------- MODULE DispatchGen -----------------------------
(* Bounded exploration of Dispatch: every choice of middleware layers for     *)
(* three nested muxes with fixed routes, every request of a list.  Checks the  *)
(* guarantees of explicit routing and sub-routers on the machine itself and    *)
(* prints every configuration as a stimulus.                                   *)
EXTENDS Dispatch, GenUtil

CONSTANTS Kinds1, Kinds2, Kinds3, N1, N2, N3

Requests == {<<"GET", "/b">>, <<"POST", "/b">>, <<"GET", "/p/z">>, <<"GET", "/a/b">>, <<"GET", "/a/a/b">>,
             <<"GET", "/a/">>, <<"GET", "/a/a/">>, <<"PUT", "/a/a/z">>, <<"GET", "/n/1">>, <<"GET", "/zz">>}

VARIABLES ph,     \* "build" | "run"
          snap    \* what was seen when layer <<i, pos>> was entered
gvars == <<routes, nf, cfg, st, ph, snap>>

Str(s) == [k |-> "str", s |-> s]
R(verb, s, pid, h) == [verb |-> verb, pat |-> Str(s), pid |-> pid, h |-> h]
Hd(form, mux, panics) == [form |-> form, mux |-> mux, panics |-> panics]
BaseHs == << Hd("cfn", 0, FALSE), Hd("chf", 0, FALSE), Hd("cptr", 0, FALSE), Hd("cfn", 0, FALSE),
             Hd("cfn", 0, TRUE), Hd("both", 0, FALSE), Hd("cfn", 0, FALSE), Hd("mux", 2, FALSE), Hd("mux", 3, FALSE) >>
BaseMuxes ==
  << [layers |-> <<>>, nf |-> 3,
      routes |-> << R("Handle", "/a/*", 1, 8), R("Get", "/b", 2, 1), R("Handle", "/p/:x", 3, 2), R("Handle", "/n/:id", 4, 9) >>],
     [layers |-> <<>>, nf |-> 6,
      routes |-> << R("Handle", "/a/*", 1, 9), R("Get", "/b", 2, 4), R("Handle", "/", 5, 5) >>],
     [layers |-> <<>>, nf |-> 7,
      routes |-> << R("Handle", "/b", 2, 1), R("Post", "/*", 6, 2) >>] >>

Lay(k, n, s) == [k |-> k, n |-> n, s |-> s]
LayersFor(K, self) ==
  UNION {CASE k = "router" -> {Lay("router", self, "")}
           [] k = "setmatch" -> {Lay("setmatch", 2, "101")}
           [] k = "nomatch" -> {Lay("nomatch", 0, "del"), Lay("nomatch", 0, "foreign")}
           [] k = "path" -> {Lay("path", 0, "/p/z"), Lay("path", 0, "/a/b")}
           [] k = "method" -> {Lay("method", 0, "POST")}
           [] OTHER -> {Lay(k, 0, "")} : k \in K}

Full(k, n) == Len(cfg.muxes[k].layers) = n
Sizes == <<N1, N2, N3>>
Ks == <<Kinds1, Kinds2, Kinds3>>
Built == \A k \in 1..3 : Full(k, Sizes[k])

Init == RInit /\ cfg = [muxes |-> BaseMuxes, hs |-> BaseHs] /\ st = Idle /\ ph = "build" /\ snap = <<>>

Build == /\ ph = "build"
         /\ \E k \in 1..3 :
              /\ ~Full(k, Sizes[k]) /\ \A j \in 1..(k - 1) : Full(j, Sizes[j])
              /\ \E L \in LayersFor(Ks[k], k) : cfg' = [cfg EXCEPT !.muxes[k].layers = Append(@, L)]
         /\ UNCHANGED <<routes, nf, st, snap, ph>>
Begin == /\ ph = "build" /\ Built
         /\ \E r \in Requests : st' = Start(r[1], r[2], NoMatch, EmptyFn, FALSE, 1)
         /\ ph' = "run" /\ snap' = <<>>
         /\ (st' = Start("GET", "/b", NoMatch, EmptyFn, FALSE, 1) => Emit("CFG", cfg))
         /\ UNCHANGED <<routes, nf, cfg>>
Run == /\ ph = "run" /\ st.mode # "idle" /\ UNCHANGED <<routes, nf, cfg, ph>>
       /\ \/ (Silent \/ ShowOut \/ ShowLeaf \/ ShowLoop \/ ShowEnd) /\ UNCHANGED snap
          \/ ShowIn /\ snap' = Append(snap, [i |-> st.i, pos |-> st.pos, path |-> st.path, match |-> MatchAt(st.i),
                                                 lk |-> LET L == Layer(st.i)[st.pos] IN IF L.k = "router" THEN Lookup(st, L.n).match ELSE NoMatch])
Next == Build \/ Begin \/ Run

\* C12: what a sub-router leaves behind
SubLeavesNoTrace ==
  (ph = "run" /\ st.mode = "ret" /\ st.shown /\ Layer(st.i)[st.pos].k = "sub") =>
     \E n \in 1..Len(snap) :
        /\ snap[n].i = st.i /\ snap[n].pos = st.pos
        /\ ("*" \in DOMAIN st.insts[st.i].params => st.path = snap[n].path /\ MatchAt(st.i) = snap[n].match)
\* C11: with nothing but path and method changes behind the router, its match runs
Harmless == {"path", "method", "nop", "copyenv", "envinit", "recover"}
RoutedOnce ==
  (ph = "run" /\ AtEnd /\ ~Looping) =>
     \A p \in 1..Len(Layer(st.i)) :
        (Layer(st.i)[p].k = "router" /\ \A q \in (p + 1)..Len(Layer(st.i)) : Layer(st.i)[q].k \in Harmless) =>
           LET at == CHOOSE n \in 1..Len(snap) : snap[n].i = st.i /\ snap[n].pos = p IN
           Decide.match = snap[at].lk
\* a hidden match does not lead the inner mux astray: with a sub-router nothing loops
SubsDoNotLoop ==
  (ph = "run" /\ Looping /\ "*" \in DOMAIN st.insts[st.i].params) =>
     \A p \in 1..Len(Layer(st.i)) : Layer(st.i)[p].k # "sub"
=============================================================================

------------------------------ MODULE Dispatch ------------------------------
(* A request going through a tree of muxes: middleware layers, explicit       *)
(* routing, sub-routers, handlers in every form, panics.  A small-step        *)
(* machine with an explicit frame stack and a heap of environment maps.       *)
(*                                                                            *)
(* cfg.muxes  : Seq([layers, routes, nf])                                     *)
(*   layers   : Seq([k, n, s])                                                *)
(*   routes   : Seq([verb, pat, pid, h])  pid: identity of the pattern value  *)
(*   nf       : handler                                                       *)
(* cfg.hs     : Seq([form, mux, panics]) handlers; 99 is net/http's NotFound  *)
(*                                                                            *)
(* A layer is one of                                                          *)
(*   router n   explicit routing by mux n                                     *)
(*   sub        the sub-router middleware                                     *)
(*   envinit    the environment initialiser                                   *)
(*   setmatch n s   puts a match of handler n and pattern s (a number or "")  *)
(*              in the environment                                            *)
(*   nomatch s  s = "del": removes it, "foreign": puts something else there,  *)
(*              "zero": puts a match without a handler there                  *)
(*   newenv / copyenv   replaces the environment with an empty map / a copy   *)
(*   path s / method s / params s   changes the request or the parameters     *)
(*   panic      panics instead of calling on                                  *)
(*   recover    recovers from panics inside                                   *)
(*   stop       does not call on                                              *)
(*   nop                                                                      *)
EXTENDS Router

VARIABLES cfg, st
dvars == <<cfg, st>>

NoMatch == [pid |-> 0, h |-> 0]
DefaultNF == 99
EmptyFn == [x \in {} |-> ""]

\* Forms of handlers which do not get the context.
Plain(form) == form \in {"fn", "hf", "ptr", "val", "uncmp", "plainmux"}

\* an event: what is observed when layer pos of a mux is entered or left, a handler is
\* called, or the whole request is over
Layer(i)  == cfg.muxes[st.insts[i].mux].layers
EnvOf(i)  == st.insts[i].env
MatchAt(i) == IF EnvOf(i) = 0 THEN NoMatch ELSE st.envs[EnvOf(i)]

Obs(ev, mux, pos, i) ==
  [ev |-> ev, mux |-> mux, pos |-> pos, path |-> st.path, method |-> st.method,
   match |-> MatchAt(i), params |-> st.insts[i].params]

Start(m, p, mt, params, hasenv, mux) ==
  [mode |-> "call", i |-> 1, pos |-> 1, path |-> p, method |-> m,
   insts |-> << [mux |-> mux, env |-> IF hasenv THEN 1 ELSE 0, params |-> params] >>,
   envs  |-> IF hasenv THEN << mt >> ELSE <<>>,
   fr    |-> <<>>, panicking |-> FALSE, shown |-> FALSE]

Idle == [mode |-> "idle"]

\* ------------------------------------------------------------ pieces of a step
Push(s, f)  == [s EXCEPT !.fr = Append(@, f)]
Onward(s)   == [s EXCEPT !.pos = @ + 1, !.mode = "call", !.shown = FALSE]
Frame(k)    == [k |-> k, i |-> st.i, pos |-> st.pos, path |-> "", match |-> NoMatch, env |-> 0]

\* makes sure instance i has an environment
WithEnv(s, i) == IF s.insts[i].env # 0 THEN s
                 ELSE [s EXCEPT !.envs = Append(@, NoMatch), !.insts[i].env = Len(s.envs) + 1]
PutMatch(s, i, mt) == LET s2 == WithEnv(s, i) IN [s2 EXCEPT !.envs[s2.insts[i].env] = mt]

\* the match which routing by mux k would choose now, and its bindings
Lookup(s, k) ==
  LET mx == cfg.muxes[k]
      res == Results(mx.routes, s.path)
      sel == SelectWith(mx.routes, res, s.method) IN
  IF sel = 0 THEN [match |-> [pid |-> 0, h |-> mx.nf], binds |-> EmptyFn,
                   methods |-> RoutableWith(mx.routes, res) # {}]
  ELSE [match |-> [pid |-> mx.routes[sel].pid, h |-> mx.routes[sel].h],
        binds |-> AsMap(res[sel].binds), methods |-> FALSE]
\* ... applied to instance i: the bindings, and an environment if it has to hold the methods
Looked(s, i, lk) ==
  LET s2 == [s EXCEPT !.insts[i].params = Override(@, lk.binds)] IN
  IF lk.methods THEN WithEnv(s2, i) ELSE s2

Num(x) == CASE x = "" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "101" -> 101 [] x = "102" -> 102

\* ------------------------------------------------------------ entering a layer
Enter(L) ==
  LET i == st.i  s == Push(st, Frame(L.k)) IN
  CASE L.k = "nop"     -> Onward(s)
    [] L.k = "router"  -> LET lk == Lookup(st, L.n)  s2 == Looked(s, i, lk) IN Onward(PutMatch(s2, i, lk.match))
    [] L.k = "sub"     ->
         LET ps == st.insts[i].params
             has == "*" \in DOMAIN ps \/ "_" \in DOMAIN ps
             tail == IF "*" \in DOMAIN ps THEN ps["*"] ELSE IF "_" \in DOMAIN ps THEN ps["_"] ELSE ""
             f == [Frame("sub") EXCEPT !.path = st.path, !.match = MatchAt(i), !.env = EnvOf(i)]
             s2 == Push(st, f)
             s3 == [s2 EXCEPT !.path = tail]
         IN IF ~has THEN Onward(Push(st, Frame("nop")))
            ELSE Onward(IF EnvOf(i) = 0 THEN s3 ELSE [s3 EXCEPT !.envs[EnvOf(i)] = NoMatch])
    [] L.k = "envinit" -> Onward(WithEnv(s, i))
    [] L.k = "setmatch" -> Onward(PutMatch(s, i, [pid |-> Num(L.s), h |-> L.n]))
    [] L.k = "nomatch" -> Onward(IF EnvOf(i) = 0 /\ L.s = "del" THEN s ELSE PutMatch(s, i, NoMatch))
    [] L.k = "newenv"  -> Onward([s EXCEPT !.envs = Append(@, NoMatch), !.insts[i].env = Len(s.envs) + 1])
    [] L.k = "copyenv" -> Onward([s EXCEPT !.envs = Append(@, MatchAt(i)), !.insts[i].env = Len(s.envs) + 1])
    [] L.k = "path"    -> Onward([s EXCEPT !.path = L.s])
    [] L.k = "method"  -> Onward([s EXCEPT !.method = L.s])
    [] L.k = "params"  -> Onward([s EXCEPT !.insts[i].params = [n \in {"*"} |-> L.s]])
    [] L.k = "panic"   -> [s EXCEPT !.mode = "ret", !.panicking = TRUE, !.shown = FALSE]
    [] L.k = "recover" -> Onward(s)
    [] L.k = "stop"    -> [s EXCEPT !.mode = "ret", !.shown = FALSE]

\* ------------------------------------------------------------ dispatching
\* what is called at the end of the stack: [match, s (the state after routing)]
Decide ==
  LET i == st.i IN
  IF MatchAt(i).h # 0 THEN [match |-> MatchAt(i), s |-> st]
  ELSE LET lk == Lookup(st, st.insts[i].mux) IN [match |-> lk.match, s |-> Looked(st, i, lk)]

HForm(h) == IF h = DefaultNF THEN "fn" ELSE cfg.hs[h].form
IsMux(h) == HForm(h) \in {"mux", "plainmux"}

\* a nested mux
CallMux(d) ==
  LET s == d.s  i == st.i  h == d.match.h
      inst == IF HForm(h) = "mux" THEN [s.insts[i] EXCEPT !.mux = cfg.hs[h].mux]
              ELSE [mux |-> cfg.hs[h].mux, env |-> 0, params |-> EmptyFn]
  IN [Push(s, Frame("mux")) EXCEPT !.insts = Append(@, inst), !.i = Len(s.insts) + 1, !.pos = 1, !.mode = "call", !.shown = FALSE]

\* a leaf: it runs, and returns or panics
AfterLeaf(d) == [d.s EXCEPT !.mode = "ret", !.panicking = d.match.h # DefaultNF /\ cfg.hs[d.match.h].panics, !.shown = FALSE]
LeafObs(d) ==
  LET h == d.match.h  s == d.s  i == st.i
      mt == IF s.insts[i].env = 0 THEN NoMatch ELSE s.envs[s.insts[i].env] IN
  [ev |-> "h", mux |-> 0, pos |-> h, path |-> s.path, method |-> s.method,
   match |-> mt, params |-> s.insts[i].params]

\* ------------------------------------------------------------ leaving a layer
Leave ==
  LET n == Len(st.fr)  f == st.fr[n]
      s == [st EXCEPT !.fr = SubSeq(@, 1, n - 1), !.i = f.i, !.pos = f.pos, !.shown = FALSE]
      cur == s.insts[f.i].env
      restore(x, e) == IF e = 0 THEN x ELSE [x EXCEPT !.envs[e] = f.match]
  IN CASE f.k = "sub"     -> restore(restore([s EXCEPT !.path = f.path], f.env), cur)
       [] f.k = "recover" -> [s EXCEPT !.panicking = FALSE]
       [] OTHER           -> s

AtLayer == st.mode = "call" /\ st.pos <= Len(Layer(st.i))
AtEnd   == st.mode = "call" /\ st.pos > Len(Layer(st.i))

\* Muxes which hand the request to each other for ever are cut off.
MaxDepth == 6
Looping == AtLayer /\ Len(st.insts) > MaxDepth

\* The internal (silent) steps.  A layer is entered after its "in" event.
Silent == \/ /\ AtLayer /\ st.shown /\ ~Looping
             /\ st' = Enter(Layer(st.i)[st.pos])
          \/ /\ AtEnd
             /\ LET d == Decide IN IsMux(d.match.h) /\ st' = CallMux(d)
          \/ /\ st.mode = "ret" /\ ~st.shown /\ Len(st.fr) > 0
             /\ LET s == Leave  f == st.fr[Len(st.fr)] IN
                st' = [s EXCEPT !.shown = f.k # "mux" /\ ~s.panicking]

ShowLoop == Looping /\ st' = Idle
LoopObs == [ev |-> "loop", mux |-> 0, pos |-> 0, path |-> "", method |-> "", match |-> NoMatch, params |-> EmptyFn]

\* The observable steps and what is observed in them.
ShowIn == /\ AtLayer /\ ~st.shown /\ ~Looping
          /\ st' = [st EXCEPT !.shown = TRUE]
InObs  == Obs("in", st.insts[st.i].mux, st.pos, st.i)
ShowOut == st.mode = "ret" /\ st.shown /\ st' = [st EXCEPT !.shown = FALSE]
OutObs  == Obs("out", st.insts[st.i].mux, st.pos, st.i)
ShowLeaf == AtEnd /\ LET d == Decide IN ~IsMux(d.match.h) /\ st' = AfterLeaf(d)
ShowEnd == st.mode = "ret" /\ ~st.shown /\ Len(st.fr) = 0 /\ st' = Idle
EndObs  == [ev |-> "end", mux |-> 0, pos |-> IF st.panicking THEN 1 ELSE 0, path |-> st.path, method |-> st.method,
            match |-> NoMatch, params |-> EmptyFn]
=============================================================================

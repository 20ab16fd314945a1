------------------------------ MODULE Pattern ------------------------------
(* Route patterns: what a pattern matches and what it binds.                  *)
(*                                                                            *)
(* Paths and patterns are TLA+ strings (TLC implements Len, SubSeq and \o on  *)
(* them; E stands for a two byte character and ~ for a byte which is not     *)
(* UTF-8, see the driver).  A match result is [ok, binds] where binds is a sequence of         *)
(* <<name, value>> in binding order (the last one wins for a repeated name).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(s, i)   == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
IsPfx(p, s) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
IsSfx(p, s) == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p

Min2(a, b) == IF a < b THEN a ELSE b

Miss == [ok |-> FALSE, binds |-> <<>>]
Hit(b) == [ok |-> TRUE, binds |-> b]

(***************************************************************************)
(* String patterns                                                         *)
(***************************************************************************)
Breaks == {"/", ".", ";", ","}

\* the first position >= i of s whose character is in set S, Len(s)+1 if none
RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, S) == IF i > Len(s) \/ At(s, i) \in S THEN i ELSE FirstIn(s, i + 1, S)

\* A name starts at i when s[i] is a break character, s[i+1] is a colon and
\* s[i+2] exists and is not a break character.
NameAt(s, i) == /\ i + 2 <= Len(s)
                /\ At(s, i) \in Breaks
                /\ At(s, i + 1) = ":"
                /\ At(s, i + 2) \notin Breaks

RECURSIVE NextName(_, _)
NextName(s, i) == IF i > Len(s) \/ NameAt(s, i) THEN i ELSE NextName(s, i + 1)

\* A string pattern is a sequence of [lit, name, stop] followed by a tail.
\* stop is the character which, like '/', ends the run bound to the name.
RECURSIVE Segs(_, _)
Segs(s, from) ==
  LET i == NextName(s, from) IN
  IF i > Len(s) THEN [segs |-> <<>>, tail |-> From(s, from)]
  ELSE LET e    == FirstIn(s, i + 2, Breaks)          \* one past the name
           rest == Segs(s, e)
           seg  == [lit  |-> SubSeq(s, from, i),
                    name |-> SubSeq(s, i + 2, e - 1),
                    stop |-> IF e > Len(s) THEN "/" ELSE At(s, e)]
       IN [segs |-> <<seg>> \o rest.segs, tail |-> rest.tail]

ParseStr(s) ==
  LET wild == IsSfx("/*", s)
      body == IF wild THEN Upto(s, Len(s) - 1) ELSE s
      p    == Segs(body, 1)
  IN [segs |-> p.segs, tail |-> p.tail, wild |-> wild]

RECURSIVE MatchSegs(_, _, _, _)
MatchSegs(p, k, path, binds) ==
  IF k > Len(p.segs)
  THEN IF p.wild
       THEN IF IsPfx(p.tail, path)
            THEN Hit(Append(binds, <<"*", From(path, Len(p.tail))>>))
            ELSE Miss
       ELSE IF path = p.tail THEN Hit(binds) ELSE Miss
  ELSE LET g == p.segs[k] IN
       IF ~IsPfx(g.lit, path) THEN Miss
       ELSE LET rest == From(path, Len(g.lit) + 1)
                e    == FirstIn(rest, 1, {g.stop, "/"})
            IN IF e = 1 THEN Miss
               ELSE MatchSegs(p, k + 1, From(rest, e),
                              Append(binds, <<g.name, Upto(rest, e - 1)>>))

MatchParsedStr(p, path) == MatchSegs(p, 1, path, <<>>)
MatchStr(s, path) == MatchParsedStr(ParseStr(s), path)

(***************************************************************************)
(* Regular expressions: syntax trees with leftmost-first semantics.        *)
(*   [k |-> "lit", c]       one character                                   *)
(*   [k |-> "fold", c]      one letter, either case                         *)
(*   [k |-> "any"]          any character but newline                       *)
(*   [k |-> "all"]          any character                                   *)
(*   [k |-> "cls", cs, neg] character class                                 *)
(*   [k |-> "cat", xs]  [k |-> "alt", xs]                                   *)
(*   [k |-> "rep", x, min, max, lazy]   max = 99: unbounded                 *)
(*   [k |-> "grp", x, i, name]          capturing group i                   *)
(*   [k |-> "bot"] [k |-> "bol"] [k |-> "eot"] [k |-> "eol"]                *)
(*   [k |-> "wb"]  [k |-> "nwb"]                                            *)
(* Ends(r, t, i, cs) is the sequence, in order of preference, of the        *)
(* [i, cs] with which a match of r starting before character i of t ends.   *)
(***************************************************************************)
Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerIdx == [c \in {Lowers[i] : i \in 1..26} |-> CHOOSE i \in 1..26 : Lowers[i] = c]
Fold(c)  == IF c \in DOMAIN LowerIdx THEN {c, Uppers[LowerIdx[c]]} ELSE {c}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
WordChars == ({Lowers[i] : i \in 1..26} \cup {Uppers[i] : i \in 1..26} \cup Digits \cup {"_"}) \ {"E"}
IsWordAt(t, i) == i >= 1 /\ i <= Len(t) /\ At(t, i) \in WordChars
NL == "\n"

RECURSIVE Ends(_, _, _, _), CatEnds(_, _, _, _), AltEnds(_, _, _, _, _, _), RepEnds(_, _, _, _, _, _), FlatRep(_, _, _, _, _, _)

One(P, i, cs) == IF P THEN <<[i |-> i, cs |-> cs]>> ELSE <<>>

\* There are no back references: of two ways to get to the same character only the
\* preferred one matters.
RECURSIVE AddAll(_, _, _)
AddAll(out, es, j) ==
  IF j > Len(es) THEN out
  ELSE AddAll(IF \E n \in 1..Len(out) : out[n].i = es[j].i THEN out ELSE Append(out, es[j]), es, j + 1)

Ends(r, t, i, cs) ==
  CASE r.k = "lit"  -> One(i <= Len(t) /\ At(t, i) = r.c, i + 1, cs)
    [] r.k = "fold" -> One(i <= Len(t) /\ At(t, i) \in Fold(r.c), i + 1, cs)
    [] r.k = "any"  -> One(i <= Len(t) /\ At(t, i) # NL, i + 1, cs)
    [] r.k = "all"  -> One(i <= Len(t), i + 1, cs)
    [] r.k = "cls"  -> One(i <= Len(t) /\ ((At(t, i) \in {r.cs[j] : j \in 1..Len(r.cs)}) # r.neg), i + 1, cs)
    [] r.k = "bot"  -> One(i = 1, i, cs)
    [] r.k = "bol"  -> One(i = 1 \/ At(t, i - 1) = NL, i, cs)
    [] r.k = "eot"  -> One(i = Len(t) + 1, i, cs)
    [] r.k = "eol"  -> One(i = Len(t) + 1 \/ At(t, i) = NL, i, cs)
    [] r.k = "wb"   -> One(IsWordAt(t, i - 1) # IsWordAt(t, i), i, cs)
    [] r.k = "nwb"  -> One(IsWordAt(t, i - 1) = IsWordAt(t, i), i, cs)
    [] r.k = "cat"  -> CatEnds(r.xs, 1, t, One(TRUE, i, cs))
    [] r.k = "alt"  -> AltEnds(r.xs, 1, t, i, cs, <<>>)
    [] r.k = "rep"  -> RepEnds(r, 0, t, i, cs, [out |-> <<>>, seen |-> {}]).out
    [] r.k = "grp"  -> LET es == Ends(r.x, t, i, cs) IN
                       [j \in 1..Len(es) |->
                          [i |-> es[j].i, cs |-> [es[j].cs EXCEPT ![r.i] = SubSeq(t, i, es[j].i - 1)]]]

RECURSIVE EndsOfAll(_, _, _, _, _)
EndsOfAll(r, t, es, j, out) ==
  IF j > Len(es) THEN out
  ELSE EndsOfAll(r, t, es, j + 1, AddAll(out, Ends(r, t, es[j].i, es[j].cs), 1))

CatEnds(xs, n, t, es) ==
  IF n > Len(xs) \/ es = <<>> THEN es ELSE CatEnds(xs, n + 1, t, EndsOfAll(xs[n], t, es, 1, <<>>))

AltEnds(xs, n, t, i, cs, out) ==
  IF n > Len(xs) THEN out ELSE AltEnds(xs, n + 1, t, i, cs, AddAll(out, Ends(xs[n], t, i, cs), 1))

\* Depth first: done = iterations so far (counted up to min if unbounded).  The
\* generator never puts a nullable body under an unbounded repetition.
RepEnds(r, done, t, i, cs, acc) ==
  IF <<done, i>> \in acc.seen THEN acc ELSE
  LET nd   == IF r.max = 99 THEN Min2(done + 1, r.min) ELSE done + 1
      acc0 == [acc EXCEPT !.seen = @ \cup {<<done, i>>}]
      more(a) == IF r.max = 99 \/ done < r.max
                 THEN FlatRep(Ends(r.x, t, i, cs), 1, r, nd, t, a) ELSE a
      stop(a) == [a EXCEPT !.out = AddAll(@, One(TRUE, i, cs), 1)]
  IN IF done < r.min THEN more(acc0) ELSE IF r.lazy THEN more(stop(acc0)) ELSE stop(more(acc0))
FlatRep(es, j, r, done, t, acc) ==
  IF j > Len(es) THEN acc
  ELSE FlatRep(es, j + 1, r, done, t, RepEnds(r, done, t, es[j].i, es[j].cs, acc))

NoCaps(n) == [j \in 1..n |-> ""]

\* p = [ast, groups] where groups is the sequence of group names ("" = unnamed)
GroupName(p, j) == IF p.groups[j] = "" THEN "$" \o ToString(j) ELSE p.groups[j]
MatchRe(p, path) ==
  LET es == Ends(p.ast, path, 1, NoCaps(Len(p.groups))) IN
  IF es = <<>> THEN Miss
  ELSE Hit([j \in 1..Len(p.groups) |-> <<GroupName(p, j), es[1].cs[j]>>])

(***************************************************************************)
(* User-defined patterns, as far as the router is concerned: a declared     *)
(* prefix, a set of paths it says it matches, and what running it binds.    *)
(***************************************************************************)
MatchCust(p, path) ==
  IF \/ p.m = "all"
     \/ p.m = "odd"  /\ Len(path) % 2 = 1
     \/ p.m = "even" /\ Len(path) % 2 = 0
  THEN Hit(p.binds) ELSE Miss

MatchPat(p, path) ==
  CASE p.k = "str"  -> MatchStr(p.s, path)
    [] p.k = "re"   -> MatchRe(p, path)
    [] p.k = "cust" -> IF IsPfx(p.pfx, path) THEN MatchCust(p, path) ELSE Miss

\* The bindings as a function from names to values (the last one wins).
Names(b) == {b[i][1] : i \in 1..Len(b)}
LastOf(b, n) == b[CHOOSE i \in 1..Len(b) : b[i][1] = n /\ \A j \in (i+1)..Len(b) : b[j][1] # n][2]
AsMap(b) == [n \in Names(b) |-> LastOf(b, n)]
\* ... and as a set of pairs
AsPairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
Override(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
PairsAsMap(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> LastOf(s, n)]
=============================================================================

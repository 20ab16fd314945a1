----------------------------- MODULE PatternGen -----------------------------
(* All string patterns up to MaxLen over Chars; checks that the operational   *)
(* matcher agrees with the declarative description of a match on all paths    *)
(* over PathChars up to PathLen, and prints every pattern as a stimulus.      *)
EXTENDS Pattern, GenUtil

CONSTANTS Chars, PathChars, MaxLen, PathLen, Lead

VARIABLE pat
Init == pat = Lead
Next == /\ Len(pat) < MaxLen
        /\ \E c \in Chars : pat' = pat \o c
        /\ Emit("PAT", pat')

RECURSIVE StrsUpTo(_)
StrsUpTo(n) == IF n = 0 THEN {""}
               ELSE LET S == StrsUpTo(n - 1) IN S \cup {s \o c : s \in S, c \in PathChars}
AllPaths == StrsUpTo(PathLen)

NoneIn(s, S) == \A i \in 1..Len(s) : At(s, i) \notin S

\* Declaratively: the path splits into literals and runs such that every run is not
\* empty, has no '/' and no stop character in it, and is as long as it can be.
RECURSIVE Splits(_, _, _)
Splits(p, k, path) ==     \* the set of binding lists
  IF k > Len(p.segs)
  THEN IF p.wild THEN (IF IsPfx(p.tail, path) THEN {<< <<"*", From(path, Len(p.tail))>> >>} ELSE {})
       ELSE (IF path = p.tail THEN {<<>>} ELSE {})
  ELSE LET g == p.segs[k] IN
       IF ~IsPfx(g.lit, path) THEN {}
       ELSE LET rest == From(path, Len(g.lit) + 1) IN
            UNION {LET run == Upto(rest, n) IN
                   {<< <<g.name, run>> >> \o b : b \in Splits(p, k + 1, From(rest, n + 1))}
                   : n \in {m \in 1..Len(rest) :
                        /\ NoneIn(Upto(rest, m), {"/", g.stop})
                        /\ (m = Len(rest) \/ At(rest, m + 1) \in {"/", g.stop})}}
AgreesWithDeclarative ==
  LET p == ParseStr(pat) IN
  \A x \in AllPaths :
    LET m == MatchParsedStr(p, x)  s == Splits(p, 1, x) IN
    IF m.ok THEN s = {m.binds} ELSE s = {}
\* putting the pieces of the pattern back together gives the pattern
RECURSIVE Glue(_)
Glue(segs) == IF segs = <<>> THEN "" ELSE Head(segs).lit \o ":" \o Head(segs).name \o Glue(Tail(segs))
ParseIsLossless == LET p == ParseStr(pat) IN pat = Glue(p.segs) \o p.tail \o (IF p.wild THEN "*" ELSE "")
=============================================================================

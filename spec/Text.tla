-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Names are sequences of character codes.  This module gives the ordering *)
(* and matching rules the documentation of traverse promises for names:    *)
(* case folding, lexicographic order, shell globs (filepath.Match) and the *)
(* fragment of regular expressions used by the scenarios.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

LowerCode(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215)
                THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerCode(s[i])]

\* strict lexicographic order on code sequences
Less(a, b) ==
  \E i \in 1..(Len(a) + 1) :
    /\ \A j \in 1..(i - 1) : j <= Len(b) /\ a[j] = b[j]
    /\ IF i > Len(a) THEN Len(b) >= i ELSE i <= Len(b) /\ a[i] < b[i]

\* ---- character classes: any | lit | set (possibly negated) ----
Has(seq, c) == \E i \in 1..Len(seq) : seq[i] = c
Cls(k, c) == CASE k.k = "any" -> TRUE
               [] k.k = "lit" -> c = k.c
               [] k.k = "set" -> Has(k.s, c) # k.neg
               [] OTHER -> FALSE

\* ---- globs: a sequence of tokens; "star" matches any run ----
RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i].k = "star"
       THEN GlobAt(p, i + 1, s, j) \/ (j <= Len(s) /\ GlobAt(p, i, s, j + 1))
       ELSE j <= Len(s) /\ Cls(p[i], s[j]) /\ GlobAt(p, i + 1, s, j + 1)
Glob(p, s) == GlobAt(p, 1, s, 1)

\* ---- regular expressions: alternatives of item sequences with quantifiers ----
RECURSIVE RexAt(_, _, _, _, _)
RexAt(its, i, s, j, fin) ==
  IF i > Len(its) THEN (fin => j = Len(s) + 1)
  ELSE LET it == its[i]
           hit == j <= Len(s) /\ Cls(it, s[j])
       IN CASE it.q = "1" -> hit /\ RexAt(its, i + 1, s, j + 1, fin)
            [] it.q = "?" -> RexAt(its, i + 1, s, j, fin)
                             \/ (hit /\ RexAt(its, i + 1, s, j + 1, fin))
            [] it.q = "*" -> RexAt(its, i + 1, s, j, fin)
                             \/ (hit /\ RexAt(its, i, s, j + 1, fin))
            [] it.q = "+" -> hit /\ (RexAt(its, i + 1, s, j + 1, fin)
                                     \/ RexAt(its, i, s, j + 1, fin))
Rex(alts, s) ==
  \E a \in 1..Len(alts) :
    \E j \in (IF alts[a].begin THEN {1} ELSE 1..(Len(s) + 1)) :
      RexAt(alts[a].items, 1, s, j, alts[a].end)
=============================================================================

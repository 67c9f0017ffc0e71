-------------------------------- MODULE Text --------------------------------
(* Strings and sequences. TLC treats a string as a sequence of characters.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

HasText(s, p) == \E i \in 1 .. (Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

Map(s, F(_)) == TLCEval([i \in 1 .. Len(s) |-> F(s[i])])
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)

RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
Flatten(ss) == Flat(ss, 1)

(* number of elements of a sequence that satisfy P *)
Count(s, P(_)) == Len(SelectSeq(s, P))

(* the Python identifier made from a C++ type or class name: every separator *)
(* becomes a single underscore, and names of template instances say so       *)
RECURSIVE MangleFrom(_, _, _)
MangleFrom(s, i, r) ==
  IF i > Len(s) THEN r
  ELSE LET c == SubSeq(s, i, i) IN
       IF c \in {" ", "<", ">", ",", ":"}
       THEN MangleFrom(s, i + 1, IF Len(r) > 0 /\ SubSeq(r, Len(r), Len(r)) = "_" THEN r ELSE r \o "_")
       ELSE MangleFrom(s, i + 1, r \o c)
RECURSIVE SpellFrom(_, _, _)
SpellFrom(s, i, r) ==
  IF i > Len(s) THEN r
  ELSE LET c == SubSeq(s, i, i) IN
       SpellFrom(s, i + 1, r \o (IF c = "*" THEN "_star_" ELSE IF c = "&" THEN "_ref_" ELSE IF c = "-" THEN "minus_" ELSE c))
IsTemplateName(s) == \E i \in 1 .. Len(s) : SubSeq(s, i, i) \in {"<", ">", ","}
Mangle(s) == IF IsTemplateName(s) THEN SpellFrom(MangleFrom(s, 1, ""), 1, "") \o "t" ELSE MangleFrom(s, 1, "")

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================

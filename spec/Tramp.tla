-------------------------------- MODULE Tramp --------------------------------
(* Virtual functions: final overriders, abstract classes, and the set of     *)
(* functions that the override-able subclass (trampoline) of a class          *)
(* dispatches to Python.                                                      *)
EXTENDS Select

PSig(m) == Map(m.ps, LAMBDA p : <<p.b, p.f>>)
VSig(m) == <<m.name, PSig(m), m.cn>>

(* a const member function gives way to the non-const one with the same       *)
(* parameters and access                                                      *)
ConstOverload(c, m) ==
  m.cn = 1 /\ \E i \in DOMAIN c.meths : LET o == c.meths[i] IN o.cn = 0 /\ o.acc = m.acc /\ o.name = m.name /\ o.tm = "" /\ m.tm = "" /\ PSig(o) = PSig(m)

(* final overrider of virtual function s in class c: <<class id, method>> or <<>> *)
RECURSIVE Final(_, _, _), FinalIn(_, _, _, _)
Final(E, c, s) ==
  LET own == SelectSeq(c.meths, LAMBDA m : m.vi = 1 /\ VSig(m) = s) IN
  IF own # <<>> THEN <<c.id, own[1]>> ELSE FinalIn(E, c, s, 1)
FinalIn(E, c, s, i) ==
  IF i > Len(c.bases) THEN <<>>
  ELSE LET r == Final(E, E.C[c.bases[i].id], s) IN IF r # <<>> THEN r ELSE FinalIn(E, c, s, i + 1)

RECURSIVE VSigs(_, _)
VSigs(E, c) == {VSig(c.meths[i]) : i \in {j \in DOMAIN c.meths : c.meths[j].vi = 1}} \cup UNION {VSigs(E, E.C[c.bases[i].id]) : i \in DOMAIN c.bases}
Abstract(E, c) == \E s \in VSigs(E, c) : Final(E, c, s)[2].pu = 1

(* Python can stand in for it: C-style variadic arguments could not be passed on *)
Overridable(E, m) == MethodUsable(E, m) /\ m.va = 0

RECURSIVE TrampNeeded(_, _)
TrampNeeded(E, c) ==
  /\ ~(Abstract(E, c) /\ \E i \in DOMAIN c.meths : c.meths[i].vi = 1 /\ c.meths[i].pu = 1 /\ ConstOverload(c, c.meths[i]))
  /\ c.fin = 0
  /\ c.dt # "private"
  /\ \/ \E i \in DOMAIN c.meths : LET m == c.meths[i] IN m.vi = 1 /\ m.acc # "private" /\ MethodUsable(E, m)
     \/ \E i \in DOMAIN c.bases : c.bases[i].acc # "private" /\ TrampNeeded(E, E.C[c.bases[i].id])

RECURSIVE TrampComplete(_, _)      \* could objects of the subclass be made?
TrampComplete(E, c) ==
  Abstract(E, c) =>
    /\ \A s \in VSigs(E, c) : LET f == Final(E, c, s) IN f[2].pu = 1 => ~ConstOverload(E.C[f[1]], f[2])
    /\ \A i \in DOMAIN c.meths : LET m == c.meths[i] IN m.vi = 1 /\ m.pu = 1 => m.acc # "private" /\ Overridable(E, m) /\ ~MethodSkip(E, c, m)
    /\ \A i \in DOMAIN c.bases : LET b == E.C[c.bases[i].id] IN IF c.bases[i].acc # "private" THEN TrampComplete(E, b) ELSE ~Abstract(E, b)
HasTramp(E, c) == TrampNeeded(E, c) /\ TrampComplete(E, c)
Constructible(E, c) == ~Abstract(E, c) \/ HasTramp(E, c)

(* the functions the trampoline overrides, as <<signature, declaring class, method>>; *)
(* acc = [seen |-> signatures already decided, set |-> result]                *)
Eligible(E, c, m) == m.vi = 1 /\ m.acc # "private" /\ Overridable(E, m) /\ ~MethodSkip(E, c, m) /\ ~ConstOverload(c, m)
RECURSIVE Walk(_, _, _, _), WalkBases(_, _, _, _)
Walk(E, c, acc, i) ==
  IF i > Len(c.meths) THEN WalkBases(E, c, acc, 1)
  ELSE LET m == c.meths[i] s == VSig(m) IN
       IF m.vi = 1 /\ s \notin acc.seen
       THEN IF Eligible(E, c, m)
            THEN Walk(E, c, [seen |-> acc.seen \cup {s}, set |-> IF m.fi = 1 THEN acc.set ELSE acc.set \cup {<<s, c.id>>}], i + 1)
            ELSE Walk(E, c, [acc EXCEPT !.seen = IF m.pu = 1 THEN @ ELSE @ \cup {s}], i + 1)
       ELSE Walk(E, c, acc, i + 1)
WalkBases(E, c, acc, i) ==
  IF i > Len(c.bases) THEN acc
  ELSE IF c.bases[i].acc = "private" THEN WalkBases(E, c, acc, i + 1)
  ELSE WalkBases(E, c, Walk(E, E.C[c.bases[i].id], acc, 1), i + 1)
Overridden(E, c) == Walk(E, c, [seen |-> {}, set |-> {}], 1).set
=============================================================================

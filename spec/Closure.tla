------------------------------- MODULE Closure -------------------------------
(* Which entities are bound: what was requested, plus everything that bound    *)
(* functions and classes mention, to the least fixed point.                    *)
EXTENDS Members

CustomBound(E, c) == c.gen \in E.cfg.binder
NestedSkip(E, c) == c.sn \in E.cfg.cskip \/ (c.sn \notin E.cfg.cbind /\ c.gen \in E.cfg.cskip)
Nested(E, c) == SelectSeq(E.w.ents, LAMBDA e : e.k = "class" /\ e.outer = c.id /\ e.acc = "public" /\ ClassUsable(E, e) /\ ~NestedSkip(E, e))
NestedEnums(E, c) == SelectSeq(E.w.ents, LAMBDA e : e.k = "enum" /\ e.outer = c.id /\ e.acc = "public" /\ EnumUsable(E, e) /\ ~EnumSkip(E, e))

RECURSIVE Top(_, _), SkippedIn(_, _), CustomIn(_, _), BuiltinIn(_, _)
Top(E, e) == IF e.outer = "" THEN e ELSE Top(E, E.C[e.outer])
SkippedIn(E, c) == ClassSkipped(E, c.id) \/ (c.outer # "" /\ SkippedIn(E, E.C[c.outer]))      \* the class, or one it is nested in, is skipped
CustomIn(E, c) == CustomBound(E, c) \/ (c.outer # "" /\ CustomIn(E, E.C[c.outer]))
BuiltinIn(E, c) == Builtin(E, c) \/ (c.outer # "" /\ BuiltinIn(E, E.C[c.outer]))
ListedBases(E, c) == SelectSeq(c.bases, LAMBDA b : b.acc = "public" /\ ClassUsable(E, E.C[b.id]) /\ ~SkippedIn(E, E.C[b.id]))

Mentions(m) == {m.r.b} \cup {m.ps[i].b : i \in DOMAIN m.ps}
RECURSIVE MethMentions(_, _, _)
MethMentions(E, c, o) ==
  UNION {Mentions(m) : m \in Range(OwnMethods(E, o))}
  \cup UNION {UNION {Mentions(m) : m \in Range(LiftedMethods(E, o, u))} : u \in {x \in Range(o.usings) : x.w = "m" /\ x.acc = "public"}}
  \cup IF o.tm = 0 THEN {}
       ELSE UNION {MethMentions(E, c, E.C[b.id]) : b \in {x \in Range(o.bases) : x.acc = "public" /\ x.virt = 0 /\ ~ClassSkipped(E, x.id)}}

Requestable(E, b) ==
  \/ IsClass(E, b) /\ LET c == E.C[b] IN c.outer = "" /\ (c.inc = 0 \/ c.tm = 1) /\ ClassUsable(E, c) /\ ~ClassSkipped(E, b) /\ ~Builtin(E, c)
  \/ IsEnum(E, b)  /\ LET e == E.N[b] IN e.outer = "" /\ EnumUsable(E, e) /\ ~EnumSkip(E, e)

ClassSigs(E, c) ==
  MethMentions(E, c, c)
  \cup (IF Constructible(E, c) THEN UNION {Mentions(t) : t \in Range(OwnCtors(E, c) \o InheritedCtors(E, c))} ELSE {})
RECURSIVE ClassMentions(_, _)
ClassMentions(E, c) ==
  {Top(E, E.C[b.id]).id : b \in Range(ListedBases(E, c))} \cup ClassSigs(E, c)
  \cup UNION {ClassMentions(E, n) : n \in {x \in Range(Nested(E, c)) : ~CustomBound(E, x)}}

Requests(E, e) ==
  {b \in CASE e.k = "class" -> IF CustomBound(E, e) THEN {} ELSE ClassMentions(E, e)
           [] e.k = "func"  -> Mentions(e.call)
           [] OTHER -> {} : Requestable(E, b)}

Roots(E) == {Ents(E)[i].id : i \in {j \in DOMAIN Ents(E) : LET e == Ents(E)[j] IN
               CASE e.k = "class" -> RootClass(E, e) [] e.k = "enum" -> RootEnum(E, e) [] OTHER -> RootFunc(E, e)}}

RECURSIVE Reach(_, _, _)
Reach(E, done, todo) ==
  IF todo = {} THEN done
  ELSE LET i == CHOOSE x \in todo : TRUE
           d == done \cup {i}
       IN Reach(E, d, (todo \cup Requests(E, E.by[i])) \ d)
BoundSet(E) == Reach(E, {}, Roots(E))

(* ------------------------------------------------------------ the environment of one run *)
Env(W0) ==
  LET T == Read(W0.cfg)
      W == [W0 EXCEPT !.dirs = T.dirs]
      I(k) == {i \in DOMAIN W.ents : W.ents[i].k = k}
      Tab(S) == TLCEval([x \in {W.ents[i].id : i \in S} |-> W.ents[CHOOSE i \in S : W.ents[i].id = x]])
      E0 == [w |-> W, bad |-> T.bad, cfg |-> Cfg(W), C |-> Tab(I("class")), N |-> Tab(I("enum")), by |-> Tab(DOMAIN W.ents), cskip |-> {}, over |-> <<>>,
             cu |-> UNION {{W.ents[i].ctors[j].uid : j \in DOMAIN W.ents[i].ctors} : i \in I("class")}]
      E1 == [E0 EXCEPT !.cskip = {x \in DOMAIN E0.C : ClassSkip(E0, E0.C[x])}]
  IN TLCEval([E1 EXCEPT !.over = TLCEval([x \in DOMAIN E1.C |-> IF HasTramp(E1, E1.C[x]) THEN Overridden(E1, E1.C[x]) ELSE {}])])

(* ------------------------------------------------------------ modules *)
Reserved == {"nonlocal", "global"}
PyNs(ns) == Map(ns, LAMBDA x : IF x \in Reserved THEN x \o "_" ELSE x)
ClassName(c) == Mangle(c.name \o (IF c.tm = 1 THEN "<" \o Join(Map(c.targs, LAMBDA a : a.pr), ",") \o ">" ELSE ""))
RECURSIVE ScopeOf(_, _)
ScopeOf(E, e) == IF e.outer = "" THEN Join(PyNs(e.ns), ".") ELSE LET o == E.C[e.outer] s == ScopeOf(E, o) IN (IF s = "" THEN "" ELSE s \o ".") \o ClassName(o)

NsPrefixes(ns) == {SubSeq(ns, 1, n) : n \in 1 .. Len(ns)}
(* namespaces that have content *)
UsedNs(E, bound) == UNION {NsPrefixes(E.by[i].ns) : i \in bound}

(* namespaces handed over as a whole, and what is still generated *)
NsHandled(E, ns) == Join(ns, "::") \in E.cfg.nsbind
=============================================================================

------------------------------- MODULE Members -------------------------------
(* What has to be registered for a bound class or function: one record per    *)
(* registration, with what a call of it must do.                              *)
EXTENDS Tramp

PForm(f) == IF f \in {"val", "cval", "cref"} THEN "v" ELSE f
PTypes(m, n) == Map(Take(m.ps, n), LAMBDA p : p.b \o "/" \o PForm(p.f))
RType(m) == m.r.b \o "/" \o m.r.f
ArgNames(m, n) == Map(Take(m.ps, n), LAMBDA p : p.nm)

(* numbers of arguments that default arguments allow *)
Arities(m) == LET d == {i \in DOMAIN m.ps : m.ps[i].df = 1} IN (IF d = {} THEN Len(m.ps) ELSE MinOf(d) - 1) .. Len(m.ps)
ArSeq(m) == LET a == Arities(m) IN Map([i \in 1 .. Cardinality(a) |-> i], LAMBDA i : MinOf(a) + i - 1)

(* ------------------------------------------------------------ calls *)
(* The recorder numbers the arguments it gives from 101 on; a function reports *)
(* the number of each argument it got (1 for a bool, -1 for an object), and    *)
(* the C++ default value for an argument that was not given.                   *)
RECURSIVE ValsFrom(_, _, _, _)
ValsFrom(ps, n, i, k) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET p == ps[i]
           j == IF i <= n /\ p.ct = 1 THEN k + 1 ELSE k
       IN <<IF i > n THEN p.dv ELSE IF p.hb = 1 THEN 1 ELSE IF p.hv = 1 THEN j ELSE -1>> \o ValsFrom(ps, n, i + 1, j)
Vals(m, n) == ValsFrom(m.ps, n, 1, 100)
Given(m, n) == Cardinality({i \in 1 .. n : m.ps[i].ct = 1})
(* of the values v, those that the C++ function m reports *)
RECURSIVE Shown(_, _, _)
Shown(m, v, i) == IF i > Len(m.ps) THEN <<>> ELSE (IF m.ps[i].nm # "" /\ m.ps[i].f \notin BadForms THEN <<v[i]>> ELSE <<>>) \o Shown(m, v, i + 1)
HitOf(m, v) == [u |-> m.uid, a |-> Shown(m, v, 1)]

CppRet(E, m) ==
  IF m.r.b = "void" THEN "void" ELSE IF m.r.f \in {"ptr", "cptr"} \/ IsClass(E, m.r.b) THEN "obj" ELSE IF IsEnum(E, m.r.b) THEN "0"
  ELSE IF m.r.b = "std::string" THEN "s7" ELSE IF m.r.f # "val" THEN "0" ELSE ToString(m.rv)
PyRet(E, m, k) ==
  IF m.r.b = "void" THEN "void" ELSE IF m.r.f \in {"ptr", "cptr"} \/ IsClass(E, m.r.b) THEN "obj" ELSE IF m.r.b = "bool" \/ (IsEnum(E, m.r.b) /\ E.N[m.r.b].eb = 1) THEN "1"
  ELSE IF m.r.b = "std::string" THEN "s" \o ToString(k) ELSE ToString(k)

(* outcome of calling m (declared in class d) with n arguments on an object of  *)
(* class c; alias: the object is one of the trampoline; over: Python overrides  *)
(* everything that can be overridden                                            *)
Outcome(E, c, d, m, n, alias, over) ==
  LET v == Vals(m, n)
      t == IF m.drv # "" THEN LET i == CHOOSE j \in DOMAIN d.meths : d.meths[j].uid = m.drv IN d.meths[i] ELSE m
      ret(r) == IF m.drv # "" THEN "void" ELSE r
      plain == LET f == IF t.vi = 1 THEN Final(E, c, VSig(t))[2] ELSE t IN
               IF f.pu = 1 THEN [thr |-> 1, ret |-> "", hits |-> <<>>] ELSE [thr |-> 0, ret |-> ret(CppRet(E, f)), hits |-> <<HitOf(f, v)>>]
      ov == IF t.vi = 1 /\ alias THEN {x \in E.over[c.id] : x[1] = VSig(t)} ELSE {}
  IN IF ov = {} THEN plain
     ELSE LET x == CHOOSE y \in ov : TRUE IN
          IF (E.C[x[2]].gen \o "::" \o t.name) \in E.cfg.tramp THEN [thr |-> 0, ret |-> ret("0"), hits |-> <<[u |-> "tramp " \o c.id \o "." \o t.name, a |-> v]>>]
          ELSE IF over THEN [thr |-> 0, ret |-> ret(PyRet(E, t, 101 + Given(m, n))), hits |-> <<[u |-> "override " \o c.id \o "." \o PyName(E, t), a |-> v]>>]
          ELSE plain

(* ------------------------------------------------------------ return value policy and documentation *)
PolicyOf(E, m, member) ==
  LET k == IF member /\ m.st = 0 THEN "member" ELSE "static" IN
  IF m.r.f \in {"ptr", "cptr", "pp"} THEN E.cfg.pol[k \o "_pointer"]
  ELSE IF m.r.f \in {"ref", "cref", "ptrref", "ptrcref"} THEN E.cfg.pol[k \o "_lvalue_reference"] ELSE "none"
Guards(E) == IF E.cfg.guard = "" THEN <<>> ELSE <<E.cfg.guard>>
DocOf(m) == (IF m.dt = "" THEN "" ELSE m.dt \o " ") \o m.cd

(* ------------------------------------------------------------ members of class o, registered on class c *)
(* why: the properties that a missing or surplus registration of this one breaks *)
Meth(E, c, d, m, n, lift, why) ==
  [t |-> "meth", name |-> PyName(E, m), types |-> PTypes(m, n), opt |-> 0, m |-> m, d |-> d.id, n |-> n, lift |-> lift,
   why |-> {"C04", "C11"} \cup why \cup (IF m.name \in DOMAIN OpTable THEN {"C15"} ELSE {}) \cup (IF m.tm = "inst" \/ c.tm = 1 THEN {"C17"} ELSE {}) \cup (IF m.vi = 1 THEN {"C16"} ELSE {})]
Many(E, c, d, ms, lift, why) == Flatten(Map(ms, LAMBDA m : Map(ArSeq(m), LAMBDA n : Meth(E, c, d, m, n, lift, why))))

OwnMethods(E, o) == SelectSeq(o.meths, LAMBDA m : m.acc = "public" /\ MethodUsable(E, m) /\ ~MethodSkip(E, o, m) /\ ~ConstOverload(o, m))
LiftedMethods(E, o, u) == LET b == E.C[u.base] IN SelectSeq(b.meths, LAMBDA m : m.name = u.name /\ m.tm = "" /\ MethodUsable(E, m) /\ ~MethodSkip(E, b, m) /\ ~ConstOverload(b, m))

FieldUsable(E, f) == f.st = 0 /\ f.bf = 0 /\ f.f \in {"val", "cval"} /\ TypeUsable(E, f)
RECURSIVE Assignable(_, _)
Assignable(E, c) ==
  \/ c.asg = "public"
  \/ /\ c.asg = ""
     /\ \A i \in DOMAIN c.fields : LET f == c.fields[i] IN f.st = 0 => f.f \notin {"cval", "ref", "cref"} /\ (f.f = "val" /\ IsClass(E, f.b) => Assignable(E, E.C[f.b]))
     /\ \A i \in DOMAIN c.bases : LET b == E.C[c.bases[i].id] IN Assignable(E, b) \/ b.asg = "protected"
Field(E, f, opt, why) ==
  [t |-> "field", name |-> f.name, types |-> <<>>, opt |-> opt, b |-> f.b, access |-> IF f.f = "cval" \/ (IsClass(E, f.b) /\ ~Assignable(E, E.C[f.b])) THEN "readonly" ELSE "readwrite",
   why |-> {"C04", "C13"} \cup why]
OwnFields(E, o, why) ==
  LET fs == SelectSeq(o.fields, LAMBDA f : f.acc = "public" /\ FieldUsable(E, f) /\ ((o.gen \o "::" \o f.name) \in E.cfg.dskip => o.tm = 1 \/ f.au = 1))
  IN Map(fs, LAMBDA f : Field(E, f, IF (o.gen \o "::" \o f.name) \in E.cfg.dskip \/ (f.au = 1 /\ why # {}) THEN 1 ELSE 0, why))
LiftedFields(E, o, u, why) ==
  LET b == E.C[u.base]
      fs == SelectSeq(b.fields, LAMBDA f : f.name = u.name /\ FieldUsable(E, f) /\ (b.gen \o "::" \o f.name) \notin E.cfg.dskip)
  IN Map(fs, LAMBDA f : Field(E, f, 0, why))

(* copy assignment: declared ones are members like any other, implicit ones may be listed *)
Assign(E, c, o) ==
  IF o.asg \in {"public", ""}
  THEN <<[t |-> "assign", name |-> "assign", types |-> <<o.id \o "/v">>, opt |-> IF o.asg = "public" THEN 0 ELSE 1, why |-> {"C04", "C15"}]>>
  ELSE <<>>

RECURSIVE MembersOf(_, _, _, _)
MembersOf(E, c, o, why) ==
  LET us == SelectSeq(o.usings, LAMBDA u : u.acc = "public" /\ u.w \in {"m", "f"}) IN
  OwnFields(E, o, why) \o Many(E, c, o, OwnMethods(E, o), 0, why) \o Assign(E, c, o)
  \o Flatten(Map(us, LAMBDA u : IF u.w = "m" THEN Many(E, c, E.C[u.base], LiftedMethods(E, o, u), 1, why \cup {"C03"}) ELSE LiftedFields(E, o, u, why \cup {"C03"})))
  \o IF o.tm = 0 THEN <<>>
     ELSE Flatten(Map(SelectSeq(o.bases, LAMBDA b : b.acc = "public" /\ b.virt = 0 /\ ~ClassSkipped(E, b.id)), LAMBDA b : MembersOf(E, c, E.C[b.id], {"C17"})))

Str(E, c) ==
  IF c.str = "" \/ (c.sn \o "::__str__") \in E.cfg.fskip \/ (c.gen \o "::__str__") \in E.cfg.fskip THEN <<>>
  ELSE <<[t |-> "str", name |-> "__str__", types |-> <<>>, opt |-> 0, u |-> c.str, why |-> {"C22", "C04"}]>>

(* ------------------------------------------------------------ constructors *)
IsDefault(t) == t.cp = 0 /\ t.mv = 0 /\ (t.ps = <<>> \/ t.ps[1].df = 1)
(* constructors inherited by using-declarations, also those that the base itself inherits; a constructor of the class itself hides the inherited one with the same parameters *)
Hidden(c, t) == \E i \in DOMAIN c.ctors : c.ctors[i].va = t.va /\ Map(c.ctors[i].ps, LAMBDA p : <<p.b, IF p.f = "cval" THEN "val" ELSE p.f>>) = Map(t.ps, LAMBDA p : <<p.b, IF p.f = "cval" THEN "val" ELSE p.f>>)
RECURSIVE Inherited(_, _)
Inherited(E, c) ==
  Flatten(Map(SelectSeq(c.usings, LAMBDA u : u.w = "c"),
              LAMBDA u : LET b == E.C[u.base] IN
                 SelectSeq(Map(b.ctors, LAMBDA t : [c |-> b, t |-> t]) \o Inherited(E, b), LAMBDA x : x.t.cp = 0 /\ x.t.mv = 0 /\ ~Hidden(c, x.t))))
RECURSIVE BasesDefault(_, _), FieldsDefault(_, _), DefaultOk(_, _, _)
(* can an object of class c be made without arguments, as a member of another class or as its base? *)
DefaultOk(E, c, acc) ==
  LET ds == SelectSeq(c.ctors, IsDefault) is == SelectSeq(Inherited(E, c), LAMBDA x : IsDefault(x.t)) IN
  IF ds # <<>> THEN ds[1].acc \in acc /\ ds[1].de = 0
  ELSE (c.ctors = <<>> \/ (is # <<>> /\ is[1].t.acc \in acc /\ is[1].t.de = 0)) /\ BasesDefault(E, c) /\ FieldsDefault(E, c)
BasesDefault(E, c) == \A i \in DOMAIN c.bases : DefaultOk(E, E.C[c.bases[i].id], {"public", "protected"})
FieldsDefault(E, c) ==
  \A i \in DOMAIN c.fields : LET f == c.fields[i] IN
     \/ f.st = 1 \/ f.init = 1 \/ f.f \in {"ptr", "cptr", "pp", "fptr", "arr"}
     \/ f.f = "val" /\ (IsClass(E, f.b) => DefaultOk(E, E.C[f.b], {"public"}))
     \/ f.f = "cval" /\ IsClass(E, f.b) /\ DefaultOk(E, E.C[f.b], {"public"}) /\ \E j \in DOMAIN E.C[f.b].ctors : IsDefault(E.C[f.b].ctors[j]) /\ E.C[f.b].ctors[j].dd = 0

CtorUsable(E, o, t) == t.acc = "public" /\ t.mv = 0 /\ t.de = 0 /\ SigUsable(E, t) /\ ~CallSkip(E, t, o.ns, <<o>>)
OwnCtors(E, c) == SelectSeq(c.ctors, LAMBDA t : t.cp = 0 /\ CtorUsable(E, c, t))
InheritedCtors(E, c) == Map(SelectSeq(Inherited(E, c), LAMBDA x : CtorUsable(E, x.c, x.t)), LAMBDA x : x.t)
OwnDefault(c) == \E i \in DOMAIN c.ctors : IsDefault(c.ctors[i])
Ctor(t, n, inh, why) == [t |-> "init", name |-> "", types |-> PTypes(t, n), opt |-> 0, m |-> t, n |-> n, inh |-> inh, why |-> {"C12"} \cup why]
CopyTypes(c) == c.id \o "/v"
Ctors(E, c) ==
  IF ~Constructible(E, c) THEN <<>>
  ELSE Flatten(Map(OwnCtors(E, c), LAMBDA t : Map(ArSeq(t), LAMBDA n : Ctor(t, n, 0, {"C04"}))))
       \o Flatten(Map(InheritedCtors(E, c), LAMBDA t : Map(ArSeq(t), LAMBDA n : [Ctor(t, n, 1, {"C04"}) EXCEPT !.opt = IF n = 0 /\ (OwnDefault(c) \/ c.ctors = <<>>) THEN 1 ELSE 0])))
       \o (IF c.ctors = <<>> /\ BasesDefault(E, c) /\ FieldsDefault(E, c)
           THEN <<[t |-> "init0", name |-> "", types |-> <<>>, opt |-> 0, why |-> {"C12"}]>>
           ELSE IF ~OwnDefault(c) /\ (\E i \in DOMAIN Inherited(E, c) : IsDefault(Inherited(E, c)[i].t)) /\ DefaultOk(E, c, {"public"})
                THEN <<[t |-> "init0", name |-> "", types |-> <<>>, opt |-> 1, why |-> {"C12"}]>>      \* made by the compiler as well
           ELSE <<>>)

(* copy constructors: a declared public one has to be there, an implicit one may be; ALIAS stands for the trampoline *)
RECURSIVE HasVirtualBase(_, _)
HasVirtualBase(E, c) == \E i \in DOMAIN c.bases : c.bases[i].virt = 1 \/ HasVirtualBase(E, E.C[c.bases[i].id])
Copies(E, c) ==
  LET ds == SelectSeq(c.ctors, LAMBDA t : t.cp = 1)
      decl == ds # <<>>
      ok == IF decl THEN CtorUsable(E, c, ds[1]) ELSE \A i \in DOMAIN c.ctors : c.ctors[i].mv = 0
      f == IF decl /\ ds[1].ps[1].f = "ref" THEN "/ref" ELSE "/v"
      opt == IF decl THEN 0 ELSE 1
      x(ty, o) == [t |-> "copy", name |-> "", types |-> <<ty \o f>>, opt |-> o, u |-> IF decl THEN ds[1].uid ELSE "", why |-> {"C12"}]
  IN IF ~ok \/ ~Constructible(E, c) THEN <<>>
     ELSE IF decl = FALSE THEN LET y(ty) == [x(ty, 1) EXCEPT !.types = <<ty \o "/ref">>] IN   \* implicit ones may take a non-const reference
          IF Abstract(E, c) THEN <<x("ALIAS", 1), y("ALIAS")>> ELSE <<x(c.id, 1), y(c.id)>> \o (IF HasTramp(E, c) THEN <<x("ALIAS", 1), y("ALIAS")>> ELSE <<>>)
     ELSE IF Abstract(E, c) THEN <<x("ALIAS", IF HasVirtualBase(E, c) THEN 1 ELSE opt)>>
     ELSE IF HasTramp(E, c) THEN <<x("ALIAS", 1), x(c.id, opt)>> ELSE <<x(c.id, opt)>>

Registrations(E, c) == Ctors(E, c) \o Copies(E, c) \o MembersOf(E, c, c, {}) \o Str(E, c)
=============================================================================

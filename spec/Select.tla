------------------------------- MODULE Select -------------------------------
(* Which declarations are usable at all, and what the rules and directives   *)
(* of the configuration say about each of them.                              *)
(*                                                                           *)
(* E is the environment of one run: E.w the world (declarations in order),   *)
(* E.cfg its configuration, E.C classes by id, E.N enums by id. Types are    *)
(* pairs of a base b (a scalar, a class or an enum) and a form f (val, cval, *)
(* ref, cref, ptr, cptr, rref, pp, arr, fptr, ptrref, ptrcref).              *)
EXTENDS Config

IsClass(E, b) == b \in DOMAIN E.C
IsEnum(E, b)  == b \in DOMAIN E.N
Encl(e) == IF e.outer # "" THEN e.outer ELSE Join(e.ns, "::")

(* ------------------------------------------------------------ accessibility *)
RECURSIVE Accessible(_, _)
Accessible(E, e) == e.anon = 0 /\ e.acc = "public" /\ (e.outer = "" \/ Accessible(E, E.C[e.outer]))

KnownBuiltins == {"nullptr_t", "nullptr_t *", "std::nullptr_t", "std::basic_string", "std::pair", "std::tuple", "std::shared_ptr", "std::unique_ptr", "std::function", "std::complex", "std::__shared_ptr"}
StlBuiltins == {"std::vector", "std::deque", "std::list", "std::array", "std::valarray", "std::set", "std::unordered_set", "std::map", "std::unordered_map", "std::optional", "std::variant"}
Builtin(E, c) == c.gen \notin E.cfg.pydel /\ (c.gen \in E.cfg.pyadd \/ c.gen \in KnownBuiltins \/ (E.w.opt.stl = 1 /\ c.gen \in StlBuiltins))

ClassUsable(E, c) == Accessible(E, c) /\ (c.inc = 0 \/ (c.tm = 1 /\ Builtin(E, c)))
EnumUsable(E, e)  == Accessible(E, e) /\ e.name # ""

BadForms == {"rref", "pp", "arr", "fptr", "fref", "mptr"}
Banned == {"std::initializer_list"}             \* pybind11 has no way to pass it
ByValueOnly == {"std::pair", "std::tuple"}      \* nor to take these but as a copy
TypeUsable(E, t) ==
  /\ t.f \notin BadForms
  /\ IsClass(E, t.b) => E.C[t.b].gen \notin Banned
  /\ IsClass(E, t.b) => ClassUsable(E, E.C[t.b])
  /\ IsEnum(E, t.b) => EnumUsable(E, E.N[t.b])

(* ------------------------------------------------------------ operators *)
OpTable == ("operator+" :> <<"__pos__", "__add__">>) @@ ("operator-" :> <<"__neg__", "__sub__">>) @@ ("operator*" :> <<"dereference", "__mul__">>)
  @@ ("operator/" :> <<"__truediv__">>) @@ ("operator%" :> <<"__mod__">>) @@ ("operator~" :> <<"__invert__">>) @@ ("operator|" :> <<"__or__">>)
  @@ ("operator&" :> <<"__and__">>) @@ ("operator^" :> <<"__xor__">>) @@ ("operator<<" :> <<"__lshift__">>) @@ ("operator>>" :> <<"__rshift__">>)
  @@ ("operator+=" :> <<"__iadd__">>) @@ ("operator-=" :> <<"__isub__">>) @@ ("operator*=" :> <<"__imul__">>) @@ ("operator/=" :> <<"__itruediv__">>)
  @@ ("operator%=" :> <<"__imod__">>) @@ ("operator|=" :> <<"__ior__">>) @@ ("operator&=" :> <<"__iand__">>) @@ ("operator^=" :> <<"__ixor__">>)
  @@ ("operator<<=" :> <<"__ilshift__">>) @@ ("operator>>=" :> <<"__irshift__">>) @@ ("operator()" :> <<"__call__">>) @@ ("operator==" :> <<"__eq__">>)
  @@ ("operator!=" :> <<"__ne__">>) @@ ("operator[]" :> <<"__getitem__">>) @@ ("operator=" :> <<"assign">>) @@ ("operator++" :> <<"pre_increment", "post_increment">>)
  @@ ("operator--" :> <<"pre_decrement", "post_decrement">>) @@ ("operator->" :> <<"arrow">>)
OtherOps == {"operator<", "operator>", "operator<=", "operator>=", "operator!", "operator&&", "operator||", "operator,"}
IsOp(m) == m.name \in DOMAIN OpTable \/ m.name \in OtherOps
OpName(m) == LET l == OpTable[m.name] IN l[IF Len(m.ps) + 1 > Len(l) THEN Len(l) ELSE Len(m.ps) + 1]
PyName(E, m) == IF m.name \in DOMAIN OpTable THEN OpName(m) ELSE IF m.st = 1 THEN E.cfg.prefix \o m.name ELSE m.name

(* ------------------------------------------------------------ callables *)
ParamUsable(E, t) == TypeUsable(E, t) /\ (IsClass(E, t.b) /\ E.C[t.b].gen \in ByValueOnly => t.f \in {"val", "cval", "cref"})
SigUsable(E, m) == TypeUsable(E, m.r) /\ \A i \in DOMAIN m.ps : ParamUsable(E, m.ps[i])
MethodUsable(E, m) == m.de = 0 /\ m.rq # "&&" /\ m.tm # "pattern" /\ m.conv = 0 /\ (IsOp(m) => m.name \in DOMAIN OpTable) /\ SigUsable(E, m)
FuncUsable(E, f) == f.anon = 0 /\ f.call.de = 0 /\ f.call.tm # "pattern" /\ ~IsOp(f.call) /\ SigUsable(E, f.call)

(* ------------------------------------------------------------ directives *)
RECURSIVE Explicit(_, _)       \* requested by name, or nested in a class that is
Explicit(E, c) == c.sn \in E.cfg.cbind \/ c.gen \in E.cfg.cbind \/ (c.outer # "" /\ Explicit(E, E.C[c.outer]))

RECURSIVE ClassSkip(_, _)
ClassSkip(E, c) ==
  IF c.sn \in E.cfg.cskip THEN TRUE ELSE IF c.sn \in E.cfg.cbind THEN FALSE
  ELSE IF c.gen \in E.cfg.cskip THEN TRUE ELSE IF c.gen \in E.cfg.cbind THEN FALSE
  ELSE \/ RuleFor(E.cfg, c.ns) = "skip" /\ ~Explicit(E, c)
       \/ \E i \in DOMAIN c.targs : IsClass(E, c.targs[i].b) /\ ClassSkip(E, E.C[c.targs[i].b])
ClassSkipped(E, i) == i \in E.cskip          \* the same, from the table made once per run

ClassWanted(E, c) ==
  \/ c.sn \in E.cfg.cbind \/ c.gen \in E.cfg.cbind
  \/ /\ ~(E.w.opt.bcts = 0 /\ c.tm = 1)
     /\ RuleFor(E.cfg, c.ns) = "bind"
     /\ \A i \in DOMAIN c.targs : IsClass(E, c.targs[i].b) => ~ClassSkip(E, E.C[c.targs[i].b])

EnumSkip(E, e) ==
  IF e.gen \in E.cfg.eskip THEN TRUE ELSE IF e.gen \in E.cfg.ebind THEN FALSE
  ELSE RuleFor(E.cfg, e.ns) = "skip" /\ ~(e.outer # "" /\ Explicit(E, E.C[e.outer]))
EnumWanted(E, e) == e.gen \in E.cfg.ebind \/ RuleFor(E.cfg, e.ns) = "bind"

(* classes that the signature of a callable mentions *)
DepForms == {"val", "cval", "ref", "cref", "ptr", "cptr", "rref", "pp", "ptrref", "ptrcref"}
Deps(E, m) == {b \in {m.r.b} \cup {m.ps[i].b : i \in {j \in DOMAIN m.ps : m.ps[j].f \in DepForms}} : IsClass(E, b)}

(* owner: the class of a member function, or <<>> *)
CallSkip(E, m, ns, owner) ==
  LET inTemplate == owner # <<>> /\ owner[1].tm = 1 IN
  IF ~inTemplate /\ m.sg \in E.cfg.fskip THEN TRUE ELSE IF ~inTemplate /\ m.sg \in E.cfg.fbind THEN FALSE
  ELSE IF m.qn \in E.cfg.fskip THEN TRUE ELSE IF ~inTemplate /\ m.qn \in E.cfg.fbind THEN FALSE
  ELSE \/ RuleFor(E.cfg, ns) = "skip" /\ ~(owner # <<>> /\ Explicit(E, owner[1]))
       \/ \E b \in Deps(E, m) : ClassSkipped(E, b)
MethodSkip(E, c, m) == CallSkip(E, m, c.ns, <<c>>)
FuncSkip(E, f) == CallSkip(E, f.call, f.ns, <<>>)
FuncWanted(E, f) ==
  \/ f.call.qn \in E.cfg.fbind \/ f.call.sg \in E.cfg.fbind
  \/ RuleFor(E.cfg, f.ns) = "bind"
  \/ \E b \in Deps(E, f.call) : ClassWanted(E, E.C[b])

(* ------------------------------------------------------------ what the run starts with *)
RootClass(E, c) == c.outer = "" /\ c.sys = 0 /\ ClassUsable(E, c) /\ ~ClassSkipped(E, c.id) /\ ClassWanted(E, c) /\ ~Builtin(E, c)
RootEnum(E, e)  == e.outer = "" /\ e.sys = 0 /\ EnumUsable(E, e) /\ ~EnumSkip(E, e) /\ EnumWanted(E, e)
RootFunc(E, f)  == f.sys = 0 /\ FuncUsable(E, f) /\ ~FuncSkip(E, f) /\ FuncWanted(E, f)

(* a rule set can be contradictory for a namespace: then the run has to fail  *)
(* if an entity there depends on it, and may fail if it evaluates the rules   *)
Ents(E) == E.w.ents
NsLevelUsable(E, e) == CASE e.k = "class" -> e.outer = "" /\ ClassUsable(E, e) [] e.k = "enum" -> e.outer = "" /\ EnumUsable(E, e) [] OTHER -> FuncUsable(E, e)
ByName(E, e) == CASE e.k = "class" -> {e.sn, e.gen} \cap (E.cfg.cbind \cup E.cfg.cskip) # {}
                  [] e.k = "enum" -> e.gen \in E.cfg.ebind \cup E.cfg.eskip
                  [] OTHER -> {e.call.qn, e.call.sg} \cap (E.cfg.fbind \cup E.cfg.fskip) # {}
MustFail(E) == E.bad # "" \/ \E i \in DOMAIN Ents(E) : LET e == Ents(E)[i] IN
                 e.sys = 0 /\ NsLevelUsable(E, e) /\ ~ByName(E, e) /\ RuleFor(E.cfg, e.ns) = "conflict"
                 /\ (e.k = "func" => \A b \in Deps(E, e.call) : TRUE)
MayFail(E) == \/ E.bad # ""
              \/ \E i \in DOMAIN Ents(E) : RuleFor(E.cfg, Ents(E)[i].ns) = "conflict"
              \/ (E.cfg.local \cap E.cfg.nolocal) \ {"@all_namespaces"} # {}
=============================================================================

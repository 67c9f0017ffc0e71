------------------------------- MODULE Conform -------------------------------
(* Comparison of what the real tool produced with what the specification        *)
(* requires. A deviation is [p |-> properties it breaks, s |-> description].    *)
EXTENDS Generator

Dev(ps, s) == {[p |-> ps, s |-> s]}
If(c, d) == IF c THEN d ELSE {}

ShowHits(h) == ToString(h)

(* call: recorded call, o: required outcome *)
CallDev(E, call, o, us, ps, what) ==
  IF call.n = 1 THEN If(us = 1, Dev(ps, what \o ": was not callable"))
  ELSE LET h == SelectSeq(call.hits, LAMBDA x : x.u \notin E.cu) IN
       IF o.thr = 1 THEN If(h # <<>> \/ ~StartsWith(call.ret, "throw "), Dev(ps, what \o ": pure virtual call gave " \o call.ret \o " " \o ShowHits(h)))
       ELSE If(h # o.hits, Dev(ps, what \o ": ran " \o ShowHits(h) \o " instead of " \o ShowHits(o.hits)))
            \cup If(h = o.hits /\ call.ret # o.ret, Dev(ps, what \o ": returned " \o call.ret \o " instead of " \o o.ret))

(* lax: comments in system headers and on implicit instantiations are not attached to the declaration *)
DocDev(a, full, lax, m, what) ==
  IF lax /\ (a.docs = <<m.cd>> \/ (m.ck = 0 /\ Len(a.docs) = 1 /\ StartsWith(a.docs[1], m.cd))) THEN {}
  ELSE IF full THEN If(IF m.ck = 1 THEN a.docs # <<DocOf(m)>> ELSE Len(a.docs) # 1 \/ ~StartsWith(a.docs[1], DocOf(m)), Dev({"C22"}, what \o ": documentation " \o ToString(a.docs) \o " instead of " \o DocOf(m)))
  ELSE If(a.docs \notin {<<>>, <<"">>, <<"doc">>, <<DocOf(m)>>, <<m.dt>>}, Dev({"C22"}, what \o ": documentation " \o ToString(a.docs)))

Show(name, types) == name \o "(" \o Join(types, ", ") \o ")"

(* registration a of member x on class c; hasAlias: an object of the trampoline was made *)
RegDev(E, c, x, a, hasAlias) ==
  LET w == c.id \o " " \o Show(a.name, a.types) IN
  CASE x.t = "meth" ->
       LET m == x.m d == E.C[x.d]
           ps == {"C11"} \cup x.why
           o == Outcome(E, c, d, m, x.n, Abstract(E, c), FALSE)
       IN If(a.ret # RType(m), Dev(ps, w \o ": return type " \o a.ret \o " instead of " \o RType(m)))
          \cup If(a.st # m.st, Dev(ps, w \o ": static " \o ToString(a.st)))
          \cup If(a.args # ArgNames(m, x.n), Dev(ps, w \o ": argument names " \o ToString(a.args)))
          \cup If(a.policy # PolicyOf(E, m, TRUE), Dev({"C18"}, w \o ": policy " \o a.policy \o " instead of " \o PolicyOf(E, m, TRUE)))
          \cup If(a.guards # Guards(E), Dev({"C18"}, w \o ": call guards " \o ToString(a.guards)))
          \cup DocDev(a, x.n = Len(m.ps) /\ x.lift = 0 /\ m.va = 0, d.sys = 1 \/ d.tm = 1, m, w)
          \cup CallDev(E, a.call, o, a.us, ps, w)
          \cup IF HasTramp(E, c) THEN CallDev(E, a.ocall, Outcome(E, c, d, m, x.n, TRUE, TRUE), IF hasAlias THEN a.us ELSE 0, {"C16", "C11"}, w \o " overridden")
               ELSE If(a.ocall.n = 0, Dev({"C16"}, w \o ": unexpected trampoline"))
    [] x.t = "str" ->
       If(a.ret # "std::string/val" \/ a.st # 0, Dev({"C22"}, w \o ": __str__ returns " \o a.ret))
       \cup (IF a.call.n = 1 THEN If(a.us = 1, Dev({"C22"}, w \o ": was not callable")) ELSE If(a.call.ret # x.u, Dev({"C22"}, w \o ": printed " \o a.call.ret \o " instead of " \o x.u)))
    [] x.t = "assign" ->
       If(a.st # 0, Dev({"C15", "C11"}, w \o ": static"))
       \cup If(a.guards # Guards(E), Dev({"C18"}, w \o ": call guards " \o ToString(a.guards)))
       \cup If(StartsWith(a.ret, x.types[1]) /\ EndsWith(a.ret, "/ref") /\ a.policy # E.cfg.pol["member_lvalue_reference"], Dev({"C18"}, w \o ": policy " \o a.policy))
    [] x.t = "field" ->
       If(a.access # x.access, Dev({"C13"}, w \o ": " \o a.access \o " instead of " \o x.access))
       \cup If(a.type \notin {x.b \o "/val", x.b \o "/cval"} /\ ~EndsWith(a.type, "/ptr"), Dev({"C13"}, w \o ": type " \o a.type \o " instead of " \o x.b))
    [] x.t = "init" ->
       LET m == x.m v == Vals(m, x.n) h == HitOf(m, v)
           bad(call) == call.n = 0 /\ m.dd = 0 /\ (IF x.inh = 1 THEN h \notin Range(call.hits) ELSE call.hits = <<>> \/ call.hits[Len(call.hits)] # h)
           wrong(call) == w \o ": constructor ran " \o ShowHits(call.hits) \o " instead of " \o ShowHits(<<h>>)
       IN If(a.us = 1 /\ ~Abstract(E, c) /\ a.call.n = 1, Dev({"C12"}, w \o ": was not callable"))
          \cup If(a.us = 1 /\ HasTramp(E, c) /\ a.ocall.n = 1, Dev({"C12", "C16"}, w \o ": trampoline was not constructed"))
          \cup If(bad(a.call), Dev({"C12"}, wrong(a.call))) \cup If(bad(a.ocall), Dev({"C12", "C16"}, wrong(a.ocall)))
          \cup If(a.args # ArgNames(m, x.n) /\ ~(a.args = <<>> /\ (x.n < Len(m.ps) \/ m.va = 1 \/ x.n = 0)), Dev({"C12"}, w \o ": argument names " \o ToString(a.args)))
          \cup If(a.policy # "none", Dev({"C18"}, w \o ": policy " \o a.policy))
    [] x.t = "init0" ->
       If(a.us = 1 /\ ~Abstract(E, c) /\ a.call.n = 1, Dev({"C12"}, w \o ": was not callable"))
       \cup If(a.us = 1 /\ HasTramp(E, c) /\ a.ocall.n = 1, Dev({"C12", "C16"}, w \o ": trampoline was not constructed"))
    [] x.t = "copy" ->
       If(x.u # "" /\ a.call.n = 0 /\ (a.call.hits = <<>> \/ a.call.hits[Len(a.call.hits)].u # x.u), Dev({"C12"}, w \o ": copy constructor ran " \o ShowHits(a.call.hits)))

Cat(t) == CASE t \in {"init", "init0", "copy"} -> "init" [] t \in {"meth", "assign", "str"} -> "meth" [] OTHER -> t
KeyOf(t, name, types) == <<Cat(t), name, types>>
SurplusOf(cat, name) == {"C02", "C03", "C04"} \cup (CASE cat = "init" -> {"C12"} [] cat = "meth" -> {"C11"} \cup (IF StartsWith(name, "__") \/ StartsWith(name, "operator") THEN {"C15", "C22"} ELSE {}) [] OTHER -> {"C13"})

(* all registrations of class c: A as recorded, X as required *)
RegsDev(E, c, alias, A, X) ==
  LET ty(t) == IF alias # "" /\ StartsWith(t, alias \o "/") THEN "ALIAS" \o SubSeq(t, Len(alias) + 1, Len(t)) ELSE t
      types(a) == IF a.t = "field" THEN <<>> ELSE Map(a.types, ty)
      ak == Map(A, LAMBDA a : KeyOf(a.t, a.name, types(a)))
      xk == Map(X, LAMBDA x : KeyOf(x.t, x.name, x.types))
      keys == Range(ak) \cup Range(xk)
      hasAlias == \E i \in DOMAIN A : A[i].t = "init" /\ A[i].ocall.n = 0
      Show1(k) == c.id \o " " \o k[1] \o " " \o Show(k[2], k[3])
  IN UNION {LET xs == {i \in DOMAIN xk : xk[i] = k}
                as == {i \in DOMAIN ak : ak[i] = k}
                need == {i \in xs : X[i].opt = 0}
            IN (IF Cardinality(as) < Cardinality(need) THEN Dev(UNION {X[i].why : i \in need} \cup (IF E.w.dirs # <<>> THEN {"C02"} ELSE {}), Show1(k) \o ": missing")
                ELSE IF xs = {} THEN Dev(SurplusOf(k[1], k[2]), Show1(k) \o ": must not be registered")
                ELSE IF Cardinality(as) > Cardinality(xs) THEN Dev(UNION {X[i].why : i \in xs} \cup {"C04"}, Show1(k) \o ": registered more than once")
                ELSE {})
               \cup UNION {LET ds == {RegDev(E, c, X[j], A[i] @@ [types |-> <<>>], hasAlias) : j \in xs} IN IF xs = {} \/ {} \in ds THEN {} ELSE CHOOSE d \in ds : TRUE : i \in as}
            : k \in keys}

(* data members: own ones lie in the object in the order of declaration *)
OffsetDev(E, c, A) ==
  LET fs == SelectSeq(c.fields, LAMBDA f : \E i \in DOMAIN A : A[i].t = "field" /\ A[i].name = f.name /\ A[i].off >= 0)
      off(f) == LET i == CHOOSE j \in DOMAIN A : A[j].t = "field" /\ A[j].name = f.name IN A[i].off
  IN UNION {If(IF c.cs = "union" THEN off(fs[i]) # 0 \/ off(fs[i + 1]) # 0 ELSE IF fs[i].au = 1 /\ fs[i + 1].au = 1 THEN off(fs[i]) > off(fs[i + 1]) ELSE off(fs[i]) >= off(fs[i + 1]),
               Dev({"C13"}, c.id \o ": data members " \o fs[i].name \o " and " \o fs[i + 1].name \o " are not where they were declared")) : i \in 1 .. (Len(fs) - 1)}

HolderOf(E, c) == IF c.dt # "" THEN c.id \o "*" ELSE E.cfg.holder \o "<" \o c.id \o (IF EndsWith(c.id, ">") THEN " >" ELSE ">")

(* classes of the standard library are opaque: their members, bases and what these mention are not specified *)
Opaque(c) == c.opq = 1
Foreign(E, B, x) == (StartsWith(x, "std::") \/ StartsWith(x, "__gnu_cxx::")) /\ \E i \in DOMAIN E.C : Opaque(E.C[i]) /\ Generated(E, B, E.C[i])

(* ------------------------------------------------------------ one recorded class *)
ClassDev(E, B, S, R, b) ==
  IF ~IsClass(E, b.cpp) THEN If(~Foreign(E, B, b.cpp), Dev({"C03", "C05", "C24"}, "class " \o b.cpp \o ": not a class of the input"))
  ELSE LET c == E.C[b.cpp] w == "class " \o b.cpp
           lb == Map(ListedBases(E, c), LAMBDA x : x.id)
           addon == SelectSeq(b.regs, LAMBDA a : a.t = "addon")
           wantAddon == IF c.gen \in E.cfg.addon THEN 1 ELSE 0
           A == SelectSeq(b.regs, LAMBDA a : a.t \in {"init", "meth", "field"})
       IN IF Opaque(c) /\ ~Generated(E, B, c) /\ Requestable(E, c.id) /\ Foreign(E, B, c.id) THEN {}      \* mentioned by another opaque class
          ELSE IF ~Generated(E, B, c)
          THEN Dev({"C01", "C02", "C03", "C05", "C24"} \cup (IF c.outer # "" THEN {"C04"} ELSE {}) \cup (IF c.tm = 1 THEN {"C17"} ELSE {}) \cup (IF CustomBound(E, c) \/ NsHandled(E, c.ns) THEN {"C19"} ELSE {}), w \o ": must not be bound")
          ELSE If(c.id \in R, Dev({"C04", "C05", "C06", "C08"}, w \o ": registered twice"))
               \cup If(b.scope # ScopeOf(E, c), Dev({"C07"}, w \o ": registered in " \o b.scope \o " instead of " \o ScopeOf(E, c)))
               \cup If(b.name # ClassName(c), Dev(IF c.tm = 1 THEN {"C17"} ELSE {"C07", "C17"}, w \o ": named " \o b.name \o " instead of " \o ClassName(c)))
               \cup If(~ScopeReady(E, S, R, c), Dev({"C07"}, w \o ": registered before what it is registered in"))
               \cup If(~Opaque(c) /\ b.bases # lb, Dev({"C06"} \cup (IF \E x \in Range(b.bases) \ Range(lb) : TRUE THEN {"C02", "C03"} ELSE {}), w \o ": bases " \o ToString(b.bases) \o " instead of " \o ToString(lb)))
               \cup If(~BasesReady(E, R, c), Dev({"C06"}, w \o ": registered before its base"))
               \cup If(b.holders # <<HolderOf(E, c)>>, Dev({"C18"}, w \o ": holder " \o ToString(b.holders) \o " instead of " \o HolderOf(E, c)))
               \cup If((b.alias # <<>>) # HasTramp(E, c), Dev({"C16"}, w \o ": trampoline " \o ToString(b.alias)))
               \cup If(b.ml # (IF ModuleLocal(E.cfg, Encl(c)) THEN 1 ELSE 0), Dev({"C18"}, w \o ": module_local " \o ToString(b.ml)))
               \cup If(b.buf # (IF c.gen \in E.cfg.buffer THEN 1 ELSE 0), Dev({"C18"}, w \o ": buffer_protocol " \o ToString(b.buf)))
               \cup If(~Opaque(c) /\ b.docs # <<c.dt_>> /\ ~((c.tm = 1 \/ c.sys = 1) /\ b.docs = <<"">>), Dev({"C22"}, w \o ": documentation " \o ToString(b.docs) \o " instead of " \o c.dt_))
               \cup If(Len(addon) # wantAddon, Dev({"C19"}, w \o ": add-on binder called " \o ToString(Len(addon)) \o " times"))
               \cup If(wantAddon = 1 /\ Len(addon) = 1 /\ (\E i \in DOMAIN b.regs : b.regs[i].t # "addon" /\ (\E j \in 1 .. i : b.regs[j].t = "addon") /\ ~(b.regs[i].t = "field" /\ \E f \in Range(c.fields) : f.au = 1 /\ f.name = b.regs[i].name)), Dev({"C19"}, w \o ": add-on binder called before the members were registered"))
               \cup IF Opaque(c) THEN {} ELSE RegsDev(E, c, IF b.alias = <<>> THEN "" ELSE b.alias[1], A, Registrations(E, c)) \cup OffsetDev(E, c, A)

(* ------------------------------------------------------------ one recorded enum *)
EnumDev(E, B, S, R, b) ==
  IF ~IsEnum(E, b.cpp) THEN If(~Foreign(E, B, b.cpp), Dev({"C03", "C14"}, "enum " \o b.cpp \o ": not an enum of the input"))
  ELSE LET e == E.N[b.cpp] w == "enum " \o b.cpp IN
       IF ~Generated(E, B, e) THEN Dev({"C01", "C02", "C03", "C05", "C14"} \cup (IF e.outer # "" THEN {"C04"} ELSE {}) \cup (IF NsHandled(E, e.ns) THEN {"C19"} ELSE {}), w \o ": must not be bound")
       ELSE If(e.id \in R, Dev({"C04", "C05", "C08", "C14"}, w \o ": registered twice"))
            \cup If(b.scope # ScopeOf(E, e), Dev({"C07", "C14"}, w \o ": registered in " \o b.scope \o " instead of " \o ScopeOf(E, e)))
            \cup If(~ScopeReady(E, S, R, e), Dev({"C07"}, w \o ": registered before what it is registered in"))
            \cup If(b.name # e.name, Dev({"C14"}, w \o ": named " \o b.name))
            \cup If(Map(b.vals, LAMBDA v : <<v.n, v.v>>) # Map(e.vals, LAMBDA v : <<v.n, v.v>>), Dev({"C14"}, w \o ": values " \o ToString(b.vals) \o " instead of " \o ToString(e.vals)))
            \cup If(b.arith # 1 - e.scoped, Dev({"C14"}, w \o ": arithmetic " \o ToString(b.arith)))
            \cup If(b.exp # 1 - e.ecls, Dev({"C14"}, w \o ": values exported " \o ToString(b.exp)))
            \cup If(b.ml # (IF ModuleLocal(E.cfg, Encl(e)) THEN 1 ELSE 0), Dev({"C18"}, w \o ": module_local " \o ToString(b.ml)))
            \cup If(b.docs # <<e.dt_>> /\ ~(e.sys = 1 /\ b.docs = <<"">>), Dev({"C22"}, w \o ": documentation " \o ToString(b.docs) \o " instead of " \o e.dt_))

(* ------------------------------------------------------------ one recorded submodule *)
SubDev(E, B, S, b, ns) ==
  LET w == "submodule " \o b.path IN
  If(ns = <<>>, Dev({"C07"}, w \o ": no namespace of the input with bound content"))
  \cup If(ns # <<>> /\ ns \in S, Dev({"C07"}, w \o ": created twice"))
  \cup If(ns # <<>> /\ ns \notin S /\ ~CanSub(E, B, S, ns), Dev({"C07"}, w \o ": must not be created, or not yet"))
  \cup If(ns # <<>> /\ b.doc # "Bindings for " \o Join(SubSeq(ns, 1, Len(ns) - 1), "::") \o "::" \o ns[Len(ns)] \o " namespace", Dev({"C07", "C22"}, w \o ": documentation " \o b.doc))

(* ------------------------------------------------------------ functions *)
FuncRegs(E, B) ==
  Flatten(Map(SelectSeq(E.w.ents, LAMBDA e : e.k = "func" /\ e.id \in B /\ ~NsHandled(E, e.ns)),
      LAMBDA f : Map(ArSeq(f.call), LAMBDA n : [m |-> f.call, n |-> n, key |-> <<Join(PyNs(f.ns), "."), f.call.name, PTypes(f.call, n)>>, root |-> f.id, tm |-> f.call.tm, sys |-> f.sys])))
FunDev(E, x, a) ==
  LET m == x.m w == "function " \o a.scope \o " " \o Show(a.name, a.types) ps == {"C11"} \cup (IF x.tm = "inst" THEN {"C17"} ELSE {}) IN
  If(a.ret # RType(m), Dev(ps, w \o ": return type " \o a.ret \o " instead of " \o RType(m)))
  \cup If(a.args # ArgNames(m, x.n), Dev(ps, w \o ": argument names " \o ToString(a.args)))
  \cup If(a.policy # PolicyOf(E, m, FALSE), Dev({"C18"}, w \o ": policy " \o a.policy \o " instead of " \o PolicyOf(E, m, FALSE)))
  \cup If(a.guards # Guards(E), Dev({"C18"}, w \o ": call guards " \o ToString(a.guards)))
  \cup DocDev(a, x.n = Len(m.ps) /\ m.va = 0, x.sys = 1 \/ m.tm = "inst", m, w)
  \cup CallDev(E, a.call, [thr |-> 0, ret |-> CppRet(E, m), hits |-> <<HitOf(m, Vals(m, x.n))>>], a.us, ps, w)
FunsDev(E, B, A) ==
  LET X == FuncRegs(E, B)
      ak == Map(A, LAMBDA a : <<a.scope, a.name, a.types>>)
      keys == Range(ak) \cup {X[i].key : i \in DOMAIN X}
  IN UNION {LET xs == {i \in DOMAIN X : X[i].key = k} as == {i \in DOMAIN ak : ak[i] = k} w == "function " \o k[1] \o " " \o Show(k[2], k[3]) IN
       (IF Cardinality(as) < Cardinality(xs) THEN Dev({"C01", "C02", "C11"} \cup (IF \E i \in xs : X[i].tm = "inst" THEN {"C17"} ELSE {}), w \o ": missing")
        ELSE IF xs = {} THEN Dev({"C01", "C02", "C03", "C11", "C15"} \cup (IF E.cfg.nsbind # {} THEN {"C19"} ELSE {}), w \o ": must not be registered")
        ELSE IF Cardinality(as) > Cardinality(xs) THEN Dev({"C04", "C08", "C11"}, w \o ": registered more than once") ELSE {})
       \cup UNION {LET ds == {FunDev(E, X[j], A[i]) : j \in xs} IN IF xs = {} \/ {} \in ds THEN {} ELSE CHOOSE d \in ds : TRUE : i \in as}
     : k \in keys}

(* ------------------------------------------------------------ user code *)
(* required calls of user functions, as <<kind, template arguments, scope, names>> *)
TypeStr(a) == a.b \o (IF a.f = "ptr" THEN "*" ELSE "")
UserCalls(E, B) ==
  Map(SelectSeq(E.w.ents, LAMBDA e : e.k = "class" /\ e.outer = "" /\ e.id \in B /\ CustomBound(E, e) /\ ~NsHandled(E, e.ns)),
      LAMBDA c : IF c.tm = 1 THEN <<"cls_t", Join(Map(c.targs, TypeStr), ", "), Join(PyNs(c.ns), "."), Map(c.targs, LAMBDA a : Mangle(a.pr))>>
                 ELSE <<"cls", "", Join(PyNs(c.ns), "."), <<>>>>)
  \o LET ns == {E.by[i].ns : i \in B}
         h == {n \in ns : Join(n, "::") \in E.cfg.nsbind}
         a == {n \in ns : Join(n, "::") \in E.cfg.nsadd}
     IN SetToSeq({<<"ns", "", Join(PyNs(n), "."), <<>>>> : n \in h} \cup {<<"nsadd", "", Join(PyNs(n), "."), <<>>>> : n \in a \ h})
UsersDev(E, B, A) ==
  LET X == UserCalls(E, B)
      ak == Map(A, LAMBDA a : <<a.kind, a.cpp, a.scope, a.args>>)
  IN UNION {LET n == Cardinality({i \in DOMAIN ak : ak[i] = k}) m == Cardinality({i \in DOMAIN X : X[i] = k}) IN
            If(n # m, Dev({"C19"}, "user code " \o ToString(k) \o " called " \o ToString(n) \o " times instead of " \o ToString(m))) : k \in Range(ak) \cup Range(X)}

SmartDev(E, B, A) ==
  LET want == {c \in DOMAIN E.C : E.C[c].gen \in E.cfg.smart /\ Generated(E, B, E.C[c])}
      have == Range(A)
  IN If(want # have \/ Cardinality(have) # Len(A), Dev({"C18"}, "smart_holder for " \o ToString(A) \o " instead of " \o ToString(want)))

(* ------------------------------------------------------------ end of the module *)
MissingDev(E, B, R) ==
  UNION {LET e == E.by[i] IN
         If(e.k # "func", Dev((IF e.outer # "" THEN {"C04", "C02", "C14"} ELSE IF i \in Roots(E) THEN {"C01", "C02", "C06"} ELSE {"C05", "C06", "C24"}) \cup (IF e.k = "enum" THEN {"C14"} ELSE IF e.tm = 1 THEN {"C17"} ELSE {}),
                              e.k \o " " \o i \o ": is not bound")) : i \in AllGenerated(E, B) \ R}
=============================================================================

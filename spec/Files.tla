-------------------------------- MODULE Files --------------------------------
(* How bindings are laid out in generated files: F is what was found on disk    *)
(* ([src, sub, decl, called, modules, extra]), A the recorded blocks in the     *)
(* order in which the module executed them.                                     *)
EXTENDS Conform

Single(E) == E.w.opt.single = 1
Files(F) == Map(F.sub, LAMBDA s : s.name)

(* entities (ids of namespace-level ones) that a recorded block belongs to *)
FunKeys(E, B) == LET X == FuncRegs(E, B) IN {<<X[i].key, X[i].root>> : i \in DOMAIN X}
Owners(E, FK, b) ==
  CASE b.t = "class" -> IF IsClass(E, b.cpp) THEN {Top(E, E.C[b.cpp]).id} ELSE {}
    [] b.t = "enum" -> IF IsEnum(E, b.cpp) THEN {Top(E, E.N[b.cpp]).id} ELSE {}
    [] b.t = "fun" -> {k[2] : k \in {x \in FK : x[1] = <<b.scope, b.name, b.types>>}}
    [] OTHER -> {}

IndexOf(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0

LayoutDev(E, B, F, A, FK) ==
  LET p == {"C08"}
      names == Files(F)
      fns == Flatten(Map(F.sub, LAMBDA s : s.fn))
      ents == {i \in DOMAIN A : A[i].t \in {"class", "enum", "fun"} /\ A[i].file # ""}
      at == TLCEval([i \in ents |-> IndexOf(names, A[i].file)])
      own == TLCEval([i \in ents |-> Owners(E, FK, A[i])])
      inFile == TLCEval([k \in DOMAIN names |-> UNION {IF Cardinality(own[i]) = 1 THEN own[i] ELSE {} : i \in {j \in ents : at[j] = k}}])
      nss(k) == {E.by[i].ns : i \in inFile[k]}
      otherNs == Cardinality({<<E.w.ents[i].ns, E.w.ents[i].anon>> : i \in DOMAIN E.w.ents}) > 1 \/ (\E i \in DOMAIN E.w.ents : E.w.ents[i].name = "")
                 \/ ("ndecor" \in DOMAIN E.w.opt /\ E.w.opt.ndecor > 0) \* declarations that are not bound separate files too
      max == IF E.w.opt.maxsize < 0 THEN 16384 ELSE E.w.opt.maxsize
  IN If(F.src = <<>> \/ F.src[1] # "tm.cpp", Dev(p, "the list of sources does not start with the root file: " \o ToString(F.src)))
     \cup If(F.src # <<"tm.cpp">> \o names, Dev(p, "the list of sources " \o ToString(F.src) \o " is not what was generated " \o ToString(names)))
     \cup If(Cardinality(Range(names)) # Len(names), Dev(p, "file names are not unique: " \o ToString(names)))
     \cup If(F.extra # <<>>, Dev(p, "files that are in no list: " \o ToString(F.extra)))
     \cup UNION {If(Len(F.sub[i].fn) # 1 /\ F.sub[i].size >= 0, Dev(p, F.sub[i].name \o " defines " \o ToString(F.sub[i].fn))) : i \in DOMAIN F.sub}
     \cup UNION {If(F.sub[i].size < 0, Dev({"C08", "C09", "C10"}, F.sub[i].name \o " is listed but does not exist")) : i \in DOMAIN F.sub}
     \cup If(Cardinality(Range(fns)) # Len(fns), Dev(p, "function names are not unique: " \o ToString(fns)))
     \cup If(F.decl # fns \/ F.called # fns, Dev(p, "functions defined " \o ToString(fns) \o ", declared " \o ToString(F.decl) \o ", called " \o ToString(F.called)))
     \cup (IF Single(E) \/ "flat" \notin DOMAIN E.w.opt THEN {}
           ELSE IF E.w.opt.flat = 1 THEN If(\E k \in DOMAIN names : HasText(names[k], "/"), Dev(p, "--flat, but files are in directories: " \o ToString(names)))
           ELSE UNION {If(~HasText(names[k], "/") /\ inFile[k] # {} /\ \A i \in inFile[k] : HasText(E.w.headers[E.by[i].hdr + 1].name, "/") /\ (E.by[i].k = "class" => E.by[i].tm = 0) /\ (E.by[i].k = "enum" => E.by[i].fw = 0),
                          Dev(p, names[k] \o ": is not in the directory of what it binds")) : k \in DOMAIN names})
     \cup IF Single(E) THEN {}
          ELSE UNION {If(at[i] = 0, Dev(p, A[i].t \o " " \o A[i].name \o ": registered from " \o A[i].file)) : i \in ents}
               \cup UNION {If(Cardinality(nss(k)) > 1, Dev(p, names[k] \o ": has entities of several namespaces " \o ToString(inFile[k]))) : k \in DOMAIN names}
               \cup UNION {If(\E l \in DOMAIN names : l < k /\ inFile[l] \cap inFile[k] # {}, Dev(p, names[k] \o ": has an entity that is also in an earlier file " \o ToString(inFile[k]))) : k \in DOMAIN names}
               \cup If(max <= 1, UNION {If(Cardinality(inFile[k]) > 1, Dev(p, names[k] \o ": is not closed although the limit is reached " \o ToString(inFile[k]))) : k \in DOMAIN names})
               \cup If(~otherNs, UNION {If(F.sub[k].size < max /\ F.sub[k].size >= 0, Dev(p, names[k] \o ": closed below the limit")) : k \in 1 .. (Len(names) - 1)})

(* the list of modules and the table of submodules name the namespaces with content *)
ModulesDev(E, B, F) ==
  LET want == {Join(n, ".") : n \in UsedNs(E, B)} \cup {Join(PyNs(n), ".") : n \in UsedNs(E, B)}
      need == {Join(n, ".") : n \in UsedNs(E, B)}
  IN If(~(Range(F.modules) \subseteq want) \/ Cardinality(Range(F.modules)) # Len(F.modules) \/ Cardinality(Range(F.modules)) # Cardinality(need),
        Dev({"C07"}, "the list of modules is " \o ToString(F.modules) \o " instead of " \o ToString(need)))

(* includes *)
RECURSIVE HdrOf(_, _)
HdrOf(E, i) == IF i \in DOMAIN E.by /\ E.by[i].k # "func" THEN (IF E.by[i].outer # "" THEN HdrOf(E, Top(E, E.by[i]).id) ELSE IF E.by[i].k = "class" /\ E.by[i].tm = 1 THEN UNION {HdrOf(E, a.b) : a \in Range(E.by[i].targs)} \* the instance itself may come from where the template is or from where it is instantiated
                                                         ELSE {E.by[i].hdr}) ELSE {}
MentionedIn(E, i) == LET e == E.by[i] IN IF e.k = "func" THEN Mentions(e.call) ELSE IF e.k = "class" /\ ~CustomBound(E, e) THEN ClassSigs(E, e) ELSE {}
IncludesDev(E, B, F, A, FK) ==
  LET ents == {i \in DOMAIN A : A[i].t \in {"class", "enum", "fun"} /\ A[i].file # ""}
      names == Files(F)
      own(k) == UNION {LET o == Owners(E, FK, A[i]) IN IF Cardinality(o) = 1 THEN o ELSE {} : i \in {j \in ents : A[j].file = names[k]}}
      added == {E.w.dirs[i].a[1] : i \in {j \in DOMAIN E.w.dirs : E.w.dirs[j].s = "+" /\ E.w.dirs[j].t = "include"}}
      banned == {E.w.dirs[i].a[1] : i \in {j \in DOMAIN E.w.dirs : E.w.dirs[j].s = "-" /\ E.w.dirs[j].t = "include"}}
      forc == {<<E.w.dirs[i].a[1], E.w.dirs[i].a[2]>> : i \in {j \in DOMAIN E.w.dirs : E.w.dirs[j].t = "include_for_class"}}
      forn == {<<E.w.dirs[i].a[1], E.w.dirs[i].a[2]>> : i \in {j \in DOMAIN E.w.dirs : E.w.dirs[j].t = "include_for_namespace"}}
      one(k) == LET inc == Range(F.sub[k].inc)
                    O == TLCEval(own(k))
                    own1 == {"<" \o (E.w.headers[h].name) \o ">" : h \in {x + 1 : x \in {E.by[i].hdr : i \in {j \in O : E.by[j].k # "class" \/ E.by[j].opq = 0}}}}
                    ment == {"<" \o (E.w.headers[h].name) \o ">" : h \in {x + 1 : x \in UNION {UNION {HdrOf(E, b) : b \in MentionedIn(E, i)} : i \in O}}}
                    gens == {E.by[i].gen : i \in O}
                    nss == {Join(E.by[i].ns, "::") : i \in O}
                    need == own1 \cup ment \cup added \cup {x[2] : x \in {y \in forc : y[1] \in gens}} \cup {x[2] : x \in {y \in forn : y[1] \in nss}}
                            \cup (IF E.w.opt.stl = 1 THEN {"<pybind11/stl.h>"} ELSE {})
                    isBanned(x) == \E b \in banned : StartsWith(x, b)
                IN If(E.cfg.pyinc \notin inc, Dev({"C20", "C21"}, names[k] \o ": does not include " \o E.cfg.pyinc)) \cup
                   UNION {If(x \notin inc /\ ~isBanned(x), Dev({"C21"} \cup (IF x = "<pybind11/stl.h>" THEN {"C24"} ELSE {}), names[k] \o ": does not include " \o x)) : x \in need}
                   \cup UNION {If(isBanned(x) /\ x \notin added, Dev({"C21"}, names[k] \o ": includes " \o x)) : x \in inc}
                   \cup UNION {If(SubSeq(x, 1, 1) # "<" /\ x \notin added, Dev({"C21"}, names[k] \o ": includes " \o x)) : x \in inc}
  IN IF Single(E) THEN {} ELSE UNION {one(k) : k \in DOMAIN names}

(* --trace: a line for every bound entity, directly before it; numbered upwards; none without the option *)
TraceDev(E, A, FK) ==
  LET ls == {i \in DOMAIN A : A[i].t = "line"}
      last(i) == LET s == {j \in ls : j < i} IN IF s = {} THEN 0 ELSE MaxOf(s)
      ents == {i \in DOMAIN A : A[i].t \in {"class", "enum", "fun"} /\ Cardinality(Owners(E, FK, A[i])) = 1}
      gen(i) == LET o == CHOOSE x \in Owners(E, FK, A[i]) : TRUE IN E.by[o].gen
  IN IF E.w.opt.trace = 0 THEN If(ls # {}, Dev({"C23"}, "trace output without --trace"))
     ELSE UNION {If(last(i) # 0 /\ A[last(i)].n >= A[i].n, Dev({"C23"}, "trace line " \o A[i].text \o " is not numbered upwards")) : i \in ls}
          \cup UNION {If(last(i) = 0 \/ ~HasText(A[last(i)].text, gen(i)), Dev({"C23"}, "no trace line before " \o gen(i))) : i \in ents}

(* the add-on function of a namespace runs before its first entity *)
AddOnDev(E, A, FK) ==
  UNION {LET o == Owners(E, FK, A[i])
             n == {E.by[x].ns : x \in o} IN
         If(Cardinality(n) = 1 /\ \E m \in n : Join(m, "::") \in E.cfg.nsadd /\ ~\E j \in 1 .. (i - 1) : A[j].t = "user" /\ A[j].kind = "nsadd" /\ A[j].scope = Join(PyNs(m), "."),
            Dev({"C19"}, "entity of " \o ToString(n) \o " registered before the add-on binder of the namespace was called")) : i \in {j \in DOMAIN A : A[j].t \in {"class", "enum", "fun"}}}
=============================================================================

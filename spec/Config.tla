------------------------------- MODULE Config -------------------------------
(* What a configuration means: the command line options W.opt and the         *)
(* directives W.dirs read from the configuration file, as one record that the *)
(* rest of the specification uses.                                            *)
EXTENDS ConfigFile

Lines(W, s, t) == SelectSeq(W.dirs, LAMBDA d : d.s = s /\ d.t = t)
Named(W, s, t) == {Lines(W, s, t)[i].a[1] : i \in DOMAIN Lines(W, s, t)}
(* a single-valued option: the last line wins, whatever its sign *)
Setting(W, t, dflt) == LET l == SelectSeq(W.dirs, LAMBDA d : d.t = t) IN IF l = <<>> THEN dflt ELSE l[Len(l)].a[1]
Second(W, t, key) == LET l == SelectSeq(W.dirs, LAMBDA d : d.s = "+" /\ d.t = t /\ d.a[1] = key) IN l[Len(l)].a[2]

Policy(W, k) == LET p == Setting(W, "default_" \o k \o "_return_value_policy", "pybind11::return_value_policy::automatic")
                    q == "pybind11::return_value_policy::"
                IN IF StartsWith(p, q) THEN SubSeq(p, Len(q) + 1, Len(p)) ELSE p

Cfg(W) ==
  [rules  |-> {[s |-> "bind", ns |-> W.opt.bind[i]] : i \in DOMAIN W.opt.bind} \cup {[s |-> "skip", ns |-> W.opt.skip[i]] : i \in DOMAIN W.opt.skip}
              \cup {[s |-> "bind", ns |-> d.ns] : d \in Range(Lines(W, "+", "namespace"))} \cup {[s |-> "skip", ns |-> d.ns] : d \in Range(Lines(W, "-", "namespace"))},
   cbind  |-> Named(W, "+", "class"),    cskip |-> Named(W, "-", "class"),
   fbind  |-> Named(W, "+", "function"), fskip |-> Named(W, "-", "function"),
   ebind  |-> Named(W, "+", "enum"),     eskip |-> Named(W, "-", "enum"),
   dskip  |-> Named(W, "-", "field"),
   pyadd  |-> Named(W, "+", "python_builtin") \cup {Setting(W, "custom_shared", "std::shared_ptr")}, pydel |-> Named(W, "-", "python_builtin"),
   binder |-> Named(W, "+", "binder"),   addon |-> Named(W, "+", "add_on_binder"),
   nsbind |-> Named(W, "+", "binder_for_namespace"), nsadd |-> Named(W, "+", "add_on_binder_for_namespace"),
   tramp  |-> Named(W, "+", "trampoline_member_function_binder"),
   local  |-> Named(W, "+", "module_local_namespace"), nolocal |-> Named(W, "-", "module_local_namespace"),
   buffer |-> Named(W, "+", "buffer_protocol"), smart |-> Named(W, "+", "smart_holder"),
   holder |-> Setting(W, "custom_shared", "std::shared_ptr"),
   pyinc  |-> "<" \o Setting(W, "pybind11_include_file", "pybind11/pybind11.h") \o ">",
   prefix |-> Setting(W, "prefix_for_static_member_functions", ""),
   guard  |-> Setting(W, "default_call_guard", ""),
   pol    |-> [k \in {"static_pointer", "static_lvalue_reference", "static_rvalue_reference", "member_pointer", "member_lvalue_reference", "member_rvalue_reference"} |-> Policy(W, k)]]

(* ---- namespace rules: the longest rule that is a prefix of the path decides ---- *)
RuleFor(cfg, ns) ==
  LET m == {r \in cfg.rules : Len(r.ns) <= Len(ns) /\ SubSeq(ns, 1, Len(r.ns)) = r.ns} IN
  IF m = {} THEN "none"
  ELSE LET n == MaxOf({Len(r.ns) : r \in m})
           k == {r.s : r \in {x \in m : Len(x.ns) = n}}
       IN IF Cardinality(k) > 1 THEN "conflict" ELSE CHOOSE s \in k : TRUE

(* path: qualified name of what encloses the class or enum *)
ModuleLocal(cfg, path) == IF "@all_namespaces" \in cfg.local THEN path \notin cfg.nolocal ELSE path \in cfg.local
=============================================================================

------------------------------ MODULE Generator ------------------------------
(* The generator as a state machine: it reads its input, selects what the      *)
(* rules request, binds requested entities one by one (each may request        *)
(* more), and then the module it wrote is executed: submodules are created and *)
(* entities registered, in some order that the guards below allow.             *)
EXTENDS Closure

VARIABLES env,      \* input of the run, see Closure!Env
          phase,    \* "start", "close", "emit", "done", "failed"
          req,      \* ids requested
          bound,    \* ids bound
          subs,     \* namespaces that have a Python submodule
          regd      \* ids (also of nested classes and enums) registered so far
vars == <<env, phase, req, bound, subs, regd>>

(* ---- guards, also used by the trace specification ---- *)
RECURSIVE InClass(_, _)        \* is e, nested in a class, part of what is generated for that class?
InClass(E, e) ==
  IF e.outer = "" THEN TRUE
  ELSE LET o == E.C[e.outer] IN
       /\ ~CustomBound(E, o) /\ InClass(E, o)
       /\ IF e.k = "enum" THEN e \in Range(NestedEnums(E, o)) ELSE e \in Range(Nested(E, o))
Generated(E, B, e) == LET t == Top(E, e) IN t.id \in B /\ ~NsHandled(E, t.ns) /\ InClass(E, e) /\ (e.k = "class" => ~CustomBound(E, e))
BasesReady(E, R, c) == \A i \in DOMAIN ListedBases(E, c) : LET b == E.C[ListedBases(E, c)[i].id] IN b.id \in R \/ BuiltinIn(E, b) \/ CustomIn(E, b) \/ NsHandled(E, Top(E, b).ns)
ScopeReady(E, S, R, e) == IF e.outer # "" THEN e.outer \in R ELSE e.ns = <<>> \/ e.ns \in S
CanSub(E, B, S, ns) == ns \in UsedNs(E, B) /\ ns \notin S /\ (Len(ns) > 1 => SubSeq(ns, 1, Len(ns) - 1) \in S)
AllGenerated(E, B) == {i \in DOMAIN E.by : Generated(E, B, E.by[i])}

(* ---- actions ---- *)
Fail == phase = "start" /\ MayFail(env) = TRUE /\ phase' = "failed" /\ UNCHANGED <<env, req, bound, subs, regd>>
SelectRoots == phase = "start" /\ MustFail(env) = FALSE /\ req' = Roots(env) /\ phase' = "close" /\ UNCHANGED <<env, bound, subs, regd>>
BindOne(i) == /\ phase = "close" /\ i \in req \ bound
              /\ bound' = bound \cup {i} /\ req' = req \cup Requests(env, env.by[i])
              /\ UNCHANGED <<env, phase, subs, regd>>
CloseDone == phase = "close" /\ req \subseteq bound /\ phase' = "emit" /\ UNCHANGED <<env, req, bound, subs, regd>>
MakeSub(ns) == phase = "emit" /\ CanSub(env, bound, subs, ns) = TRUE /\ subs' = subs \cup {ns} /\ UNCHANGED <<env, phase, req, bound, regd>>
Register(i) == LET e == env.by[i] IN
               /\ phase = "emit" /\ i \notin regd /\ Generated(env, bound, e) = TRUE /\ ScopeReady(env, subs, regd, e) = TRUE
               /\ (e.k = "class" => BasesReady(env, regd, e)) = TRUE
               /\ regd' = regd \cup {i} /\ UNCHANGED <<env, phase, req, bound, subs>>
Finish == phase = "emit" /\ regd = AllGenerated(env, bound) /\ subs = UsedNs(env, bound) /\ phase' = "done" /\ UNCHANGED <<env, req, bound, subs, regd>>

InitWith(W) == env = Env(W) /\ phase = "start" /\ req = {} /\ bound = {} /\ subs = {} /\ regd = {}
Next == \/ Fail \/ SelectRoots \/ CloseDone \/ Finish
        \/ \E i \in req : BindOne(i)
        \/ phase = "emit" /\ \E ns \in UsedNs(env, bound) : MakeSub(ns)
        \/ phase = "emit" /\ \E i \in AllGenerated(env, bound) : Register(i)

(* ---- properties of the design, checked on small inputs (MC*.tla) ---- *)
(* whatever the order of binding, the result is the least fixed point *)
Confluent == /\ bound \subseteq BoundSet(env)
             /\ phase \in {"emit", "done"} => bound = BoundSet(env)
(* nothing skipped, inaccessible or incomplete is ever bound *)
OnlyUsable == \A i \in bound : LET e == env.by[i] IN NsLevelUsable(env, e) /\ (e.k = "class" => ~ClassSkipped(env, i)) /\ (e.k = "enum" => ~EnumSkip(env, e))
(* everything bound is needed: a root, or mentioned by something bound *)
Needed == \A i \in bound : i \in Roots(env) \/ \E j \in bound \ {i} : i \in Requests(env, env.by[j])
(* a class that is registered has its listed bases registered *)
BasesFirst == \A i \in regd : env.by[i].k = "class" => BasesReady(env, regd, env.by[i])
ParentsFirst == \A ns \in subs : Len(ns) > 1 => SubSeq(ns, 1, Len(ns) - 1) \in subs
(* a class that mentions no skipped class among its public usable bases lists them all *)
SkippedNowhere == \A i \in regd : LET e == env.by[i] IN e.k = "class" => \A b \in Range(ListedBases(env, e)) : ~ClassSkipped(env, b.id)
(* a run always ends: the only states without a successor are final ones *)
NeverStuck == phase \in {"done", "failed"} \/ ENABLED Next
=============================================================================

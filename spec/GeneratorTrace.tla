--------------------------- MODULE GeneratorTrace ---------------------------
(* Trace validation: each recorded run of the real tool (input, exit status,    *)
(* what the generated module did when it was executed, generated files) is      *)
(* replayed as a behaviour of Generator. Where the recorded step is not one the *)
(* specification allows the deviation is collected and the step is taken        *)
(* anyhow, so that the rest of the trace is examined too.                       *)
EXTENDS Files, Json, IOUtils

CONSTANT Prop                       \* the property whose check runs
Runs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES wi, pos, dev
tvars == <<vars, wi, pos, dev>>
Blocks == Runs[wi].b
Cur == Blocks[pos]

TraceInit == wi \in DOMAIN Runs /\ pos = 0 /\ dev = {} /\ env = <<>> /\ phase = "start" /\ req = {} /\ bound = {} /\ subs = {} /\ regd = {}

(* Load composes SelectRoots, the BindOne steps in some order and CloseDone: no event is recorded for them, and *)
(* Confluent (checked on MC models) says that the order does not matter                                        *)
Load ==
  /\ pos = 0
  /\ LET E == Env(Runs[wi].w) IN
     /\ env' = E
     /\ IF Runs[wi].rc # 0
        THEN /\ dev' = If(~MayFail(E), Dev({Prop}, "the run failed with status " \o ToString(Runs[wi].rc)))
             /\ phase' = "failed" /\ pos' = -1 /\ UNCHANGED <<bound, req>>
        ELSE /\ dev' = If(MustFail(E), IF E.bad # "" THEN Dev({"C20", "C10"}, "an invalid configuration file was accepted: " \o E.bad) ELSE Dev({"C01"}, "contradictory namespace rules were accepted"))
             /\ IF MayFail(E) THEN phase' = "failed" /\ pos' = -1 /\ UNCHANGED <<bound, req>>
                ELSE bound' = BoundSet(E) /\ req' = bound' /\ phase' = "emit" /\ pos' = 1
  /\ UNCHANGED <<subs, regd, wi>>

IsEvent(t) == phase = "emit" /\ pos \in 1 .. Len(Blocks) /\ Cur.t = t /\ pos' = pos + 1 /\ UNCHANGED <<env, phase, req, bound, wi>>

NsOfPath(p) == LET m == {n \in UsedNs(env, bound) : Join(PyNs(n), ".") = p} IN IF m = {} THEN <<>> ELSE CHOOSE n \in m : TRUE
SubEvent == IsEvent("sub") /\ LET ns == NsOfPath(Cur.path) IN dev' = dev \cup SubDev(env, bound, subs, Cur, ns) /\ subs' = subs \cup {ns} /\ UNCHANGED regd
ClassEvent == IsEvent("class") /\ dev' = dev \cup ClassDev(env, bound, subs, regd, Cur) /\ regd' = regd \cup ({Cur.cpp} \cap DOMAIN env.by) /\ UNCHANGED subs
EnumEvent == IsEvent("enum") /\ dev' = dev \cup EnumDev(env, bound, subs, regd, Cur) /\ regd' = regd \cup ({Cur.cpp} \cap DOMAIN env.by) /\ UNCHANGED subs
FunEvent == IsEvent("fun") /\ UNCHANGED <<subs, regd>>
            /\ dev' = dev \cup If(Cur.scope # "" /\ NsOfPath(Cur.scope) \notin subs, Dev({"C07"}, "function " \o Cur.name \o " registered in " \o Cur.scope \o ", which does not exist"))
OtherEvent == (IsEvent("user") \/ IsEvent("smart") \/ IsEvent("line")) /\ UNCHANGED <<subs, regd, dev>>
StrayEvent == IsEvent("stray") /\ dev' = dev \cup Dev({Prop}, "unexpected event " \o Cur.what) /\ UNCHANGED <<subs, regd>>
EndEvent == IsEvent("end") /\ UNCHANGED <<subs, regd>>
            /\ dev' = dev \cup If(Cur.status # "ok", Dev({Prop}, "importing the module failed: " \o Cur.status)) \cup If(pos # Len(Blocks), Dev({Prop}, "events after the end"))

Blk(t) == SelectSeq(Blocks, LAMBDA b : b.t = t)
FinalDev ==
  LET FK == TLCEval(FunKeys(env, bound)) F == Runs[wi].f IN
  MissingDev(env, bound, regd) \cup FunsDev(env, bound, Blk("fun")) \cup UsersDev(env, bound, Blk("user")) \cup SmartDev(env, bound, Map(Blk("smart"), LAMBDA b : b.cpp))
  \cup If(subs # UsedNs(env, bound) /\ subs \subseteq UsedNs(env, bound), Dev({"C07"}, "no submodule for " \o ToString(UsedNs(env, bound) \ subs)))
  \cup If(Blocks = <<>> \/ Blocks[Len(Blocks)].t # "end", Dev({Prop}, "the module did not finish"))
  \cup LayoutDev(env, bound, F, Blocks, FK) \cup ModulesDev(env, bound, F) \cup IncludesDev(env, bound, F, Blocks, FK) \cup TraceDev(env, Blocks, FK) \cup AddOnDev(env, Blocks, FK)
Stats == [world |-> Runs[wi].name, blocks |-> Len(Blocks), bound |-> Cardinality(bound), ents |-> Len(env.w.ents), phase |-> phase]
End ==
  /\ phase = "emit" /\ pos = Len(Blocks) + 1
  /\ dev' = dev \cup FinalDev
  /\ phase' = "done" /\ pos' = -1 /\ UNCHANGED <<env, req, bound, subs, regd, wi>>
(* on inputs made to exercise the configuration file every deviation from what the file says counts *)
Tagged == IF Runs[wi].w.profile = "config" THEN {[d EXCEPT !.p = @ \cup {"C20"}] : d \in dev} ELSE dev
Report ==
  /\ pos = -1 /\ phase \in {"done", "failed"}
  /\ PrintT("@@" \o ToJson([stats |-> Stats, dev |-> SetToSeq(Tagged)]))
  /\ phase' = "reported" /\ UNCHANGED <<env, req, bound, subs, regd, wi, pos, dev>>

TraceNext == Load \/ SubEvent \/ ClassEvent \/ EnumEvent \/ FunEvent \/ OtherEvent \/ StrayEvent \/ EndEvent \/ End \/ Report
TraceSpec == TraceInit /\ [][TraceNext]_tvars
View == <<wi, pos, phase>>

(* a conforming run also keeps the invariants of the design *)
DesignHolds == phase = "done" /\ dev = {} => Confluent /\ OnlyUsable /\ Needed /\ BasesFirst /\ ParentsFirst /\ SkippedNowhere
(* the verdict: no step of any run broke the property *)
Holds == \A d \in Tagged : Prop \notin d.p
(* every run was read to its end *)
Alias == [run |-> Runs[wi].name, pos |-> pos, phase |-> phase, dev |-> dev]
=============================================================================

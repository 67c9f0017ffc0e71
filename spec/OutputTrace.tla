----------------------------- MODULE OutputTrace -----------------------------
(* Trace validation of recorded histories of one output directory: each run event composes Start, the file           *)
(* operations and Done, FailOp or Kill of Output; what it did is judged by the run predicates, which MCOutput shows   *)
(* to hold of every such composition.                                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, OutputRun
CONSTANT Prop
Hs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES hi, pos, disk, dev
tvars == <<hi, pos, disk, dev>>
H == Hs[hi]
Ev == H.ev[pos]
Dev(p, s) == {[p |-> p, s |-> s]}
If(c, d) == IF c THEN d ELSE {}
At(d, f) == IF f \in DOMAIN d THEN d[f] ELSE "absent"
Ext(d) == [f \in ToSet(H.files) \cup DOMAIN d |-> At(d, f)]

TInit == hi \in DOMAIN Hs /\ pos = 1 /\ dev = {} /\ disk = [f \in ToSet(Hs[hi].files) |-> "absent"]
IsEvent(op) == pos \in 1 .. Len(H.ev) /\ Ev.op = op /\ pos' = pos + 1 /\ UNCHANGED hi
What == "event " \o ToString(pos) \o " (" \o Ev.op \o " " \o Ev.v \o " " \o Ev.how \o " " \o Ev.f \o " " \o Ev.at \o "): "
TamperEvent == IsEvent("tamper") /\ disk' = Ext(Ev.post) /\ UNCHANGED dev
RunEvent ==
  /\ IsEvent("run")
  /\ LET post == Ext(Ev.post)
         del == Ev.delivered = 1
         C == H.content
         wrong == {f \in Of(C, Ev.v) : post[f] # Want(C, Ev.v, f)}
     IN /\ disk' = post
        /\ dev' = dev
             \cup If(~CompleteRun(C, Ev.v, post, Ev.rc), Dev(IF del THEN {"C10"} ELSE {"C09", "C10", "C08"}, What \o "ended with status 0 but " \o ToString([f \in wrong |-> post[f]]) \o " instead of what a fresh run writes"))
             \cup If(~QuietRun(C, Ev.v, Ext(disk), ToSet(Ev.touched), ToSet(H.always)), Dev({"C09"}, What \o "rewrote files that were up to date: " \o ToString(Ev.touched)))
             \cup If(~OthersRun(C, Ev.v, Ext(disk), post), Dev({"C09"}, What \o "changed files it does not generate"))
             \cup If(~ReasonRun(C, Ev.v, Ext(disk), Ev.rc, del), Dev({"C09", "C10"}, What \o "failed although nothing was wrong"))
             \cup If(Ev.rc = "hang", Dev({"C09", "C10", "C08"}, What \o "does not end"))
             \cup If(Ev.rc = "0" /\ del /\ Ev.how = "kill", Dev({"C10"}, What \o "survived being killed"))
(* input or configuration that can not be read or is invalid *)
BadEvent == IsEvent("bad") /\ UNCHANGED disk /\ dev' = dev \cup If(Ev.rc \in {"0", "hang"}, Dev({"C10"} \cup ToSet(Ev.props), "status " \o Ev.rc \o " for " \o Ev.how))
(* the same input must give the same bytes *)
SameEvent == IsEvent("same") /\ UNCHANGED disk /\ dev' = dev \cup If(Ev.diff # <<>> \/ Ev.rc # "0", Dev({"C09"} \cup ToSet(Ev.props), Ev.how \o ": different output " \o ToString(Ev.diff)))
Report == /\ pos = Len(H.ev) + 1 /\ PrintT("@@" \o ToJson([world |-> H.name, dev |-> SetToSeq(dev)])) /\ pos' = pos + 1 /\ UNCHANGED <<hi, disk, dev>>
TNext == TamperEvent \/ RunEvent \/ BadEvent \/ SameEvent \/ Report
TSpec == TInit /\ [][TNext]_tvars
Holds == \A d \in dev : Prop \notin d.p
=============================================================================

------------------------------- MODULE Output -------------------------------
(* The output directory over a history of runs: each run brings the files of  *)
(* one version of the input up to date with one file operation after the      *)
(* other; any of them may fail, the tool may be killed between any two, and   *)
(* between runs the user may change the input or the directory.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, OutputRun

CONSTANTS Content,    \* version -> (file -> content)
          AllFiles,   \* every file name that occurs
          Always      \* files that are rewritten by every run (root file, lists)
VARIABLES disk,       \* file -> content, or "absent", "partial", "junk", "blocked" (something that can not be written)
          st,         \* "idle", "run"
          cur,        \* version of the current or last run
          todo,       \* files still to be brought up to date
          wr,         \* files being written
          rc,         \* status of the last run: "none", "0", "1", "killed"
          pre,        \* the directory when it started
          fault,      \* did an operation of it fail?
          touched     \* files it wrote to
ovars == <<disk, st, cur, todo, wr, rc, pre, fault, touched>>

Init == /\ disk = [f \in AllFiles |-> "absent"] /\ st = "idle" /\ cur = (CHOOSE v \in DOMAIN Content : TRUE) /\ todo = {} /\ wr = {} /\ rc = "none"
        /\ pre = disk /\ fault = FALSE /\ touched = {}
Start(v) == st = "idle" /\ st' = "run" /\ cur' = v /\ todo' = Of(Content, v) /\ wr' = {} /\ rc' = "none" /\ pre' = disk /\ fault' = FALSE /\ touched' = {} /\ UNCHANGED disk
Skip(f) == st = "run" /\ f \in todo \ (wr \cup Always) /\ disk[f] = Want(Content, cur, f) /\ todo' = todo \ {f} /\ UNCHANGED <<disk, st, cur, wr, rc, pre, fault, touched>>
Open(f) == /\ st = "run" /\ f \in todo \ wr /\ (f \in Always \/ disk[f] # Want(Content, cur, f)) /\ disk[f] # "blocked"
           /\ disk' = [disk EXCEPT ![f] = "partial"] /\ wr' = wr \cup {f} /\ touched' = touched \cup {f} /\ UNCHANGED <<st, cur, todo, rc, pre, fault>>
Write(f) == st = "run" /\ f \in wr /\ disk' = [disk EXCEPT ![f] = Want(Content, cur, f)] /\ wr' = wr \ {f} /\ todo' = todo \ {f} /\ UNCHANGED <<st, cur, rc, pre, fault, touched>>
(* opening, writing or closing f fails: the run ends and says so *)
FailOp(f) == /\ st = "run" /\ f \in todo
             /\ st' = "idle" /\ rc' = "1" /\ fault' = TRUE /\ todo' = {} /\ wr' = {} /\ UNCHANGED <<disk, cur, pre, touched>>
Kill == st = "run" /\ st' = "idle" /\ rc' = "killed" /\ todo' = {} /\ wr' = {} /\ UNCHANGED <<disk, cur, pre, fault, touched>>
Done == st = "run" /\ todo = {} /\ wr = {} /\ st' = "idle" /\ rc' = "0" /\ UNCHANGED <<disk, cur, todo, wr, pre, fault, touched>>
Tamper(f, c) == st = "idle" /\ disk[f] # c /\ disk' = [disk EXCEPT ![f] = c] /\ rc' = "none" /\ UNCHANGED <<st, cur, todo, wr, pre, fault, touched>>

Next == \/ \E v \in DOMAIN Content : Start(v)
        \/ \E f \in AllFiles : Skip(f) \/ Open(f) \/ Write(f) \/ FailOp(f)
        \/ Kill \/ Done
        \/ \E f \in AllFiles, c \in {"absent", "partial", "blocked"} : Tamper(f, c)
Spec == Init /\ [][Next]_ovars
FairSpec == Spec /\ WF_ovars(\E f \in AllFiles : Skip(f) \/ Open(f) \/ Write(f) \/ FailOp(f)) /\ WF_ovars(Done)

Ended == st = "idle" /\ rc # "none"
CompleteInv == Ended => CompleteRun(Content, cur, disk, rc)
QuietInv == Ended => QuietRun(Content, cur, pre, touched, Always)
OthersInv == Ended => OthersRun(Content, cur, pre, disk)
ReportedInv == Ended => (fault => rc # "0")
(* without further failures a run always ends well, whatever the directory looks like (unless something blocks a file) *)
Progress == (st = "run") ~> (st = "idle")
CanRepair == st = "run" /\ (\A f \in Of(Content, cur) : disk[f] # "blocked") => todo = {} \/ \E f \in AllFiles : ENABLED (Skip(f) \/ Open(f) \/ Write(f))
=============================================================================

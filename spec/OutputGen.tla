------------------------------ MODULE OutputGen ------------------------------
(* generates histories of the output directory (what a user and the machine do) for the conformance driver *)
EXTENDS MCOutput, Json
CONSTANT N                     \* events per history
VARIABLE hist
Rec(r) == hist' = Append(hist, r)
GInit == Init /\ hist = <<>>
GStart(v) == Start(v) /\ Rec([op |-> "run", v |-> v, how |-> "ok", f |-> "", at |-> ""])
Last == Len(hist)
Mark(how, f, at) == hist' = [hist EXCEPT ![Last].how = how, ![Last].f = f, ![Last].at = at]
GFail(f) == FailOp(f) /\ \E how \in {"err", "full", "short"} : IF f \in wr THEN \E at \in {"write", "close"} : Mark(how, f, at) ELSE Mark(how, f, "open")
GKill == Kill /\ \E f \in AllFiles \cap todo : IF f \in wr THEN \E at \in {"write", "close"} : Mark("kill", f, at) ELSE Mark("kill", f, "open")
Tampered == Len(hist) > 0 /\ hist[Last].op = "tamper"
GTamper == /\ Len(hist) > 0 /\ Len(hist) < N - 1 /\ ~(Len(hist) > 1 /\ Tampered /\ hist[Last - 1].op = "tamper")
           /\ \E f \in AllFiles, c \in {"absent", "partial", "blocked"} : Tamper(f, c) /\ Rec([op |-> "tamper", v |-> "", how |-> c, f |-> f, at |-> ""])
GNext == /\ ~(st = "idle" /\ Len(hist) >= N)
         /\ \/ \E v \in DOMAIN Content : GStart(v)
            \/ (\E f \in AllFiles : Skip(f) \/ Open(f) \/ Write(f)) /\ UNCHANGED hist
            \/ Done /\ UNCHANGED hist
            \/ \E f \in AllFiles : GFail(f)
            \/ GKill \/ GTamper
GSpec == GInit /\ [][GNext]_<<ovars, hist>>
Emit == (st = "idle" /\ Len(hist) = N) => PrintT("@@" \o ToJson(hist))
GView == <<ovars, hist>>
=============================================================================

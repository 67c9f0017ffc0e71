---------------------------- MODULE MCGenerator -----------------------------
(* The generator on every small input of a family (lib/shapes.py enumerates    *)
(* them; the real tool is run on the same inputs): TLC explores every order of *)
(* binding and of registration and checks the properties of the design.        *)
EXTENDS Generator, Json, IOUtils

Inputs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE wi
MCInit == wi \in DOMAIN Inputs /\ InitWith(Inputs[wi])
MCNext == Next /\ UNCHANGED wi
MCSpec == MCInit /\ [][MCNext]_<<vars, wi>> /\ WF_<<vars, wi>>(MCNext)
MCView == <<wi, phase, req, bound, subs, regd>>

(* registration completes whatever order was taken: no choice leads into a dead end *)
Completes == phase = "emit" /\ ~ENABLED Next => FALSE
(* binding an entity never withdraws a request, and registration never forgets *)
Grows == [][bound \subseteq bound' /\ req \subseteq req' /\ subs \subseteq subs' /\ regd \subseteq regd']_<<vars, wi>>
Ends == <>(phase \in {"done", "failed"})
=============================================================================

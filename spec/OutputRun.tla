------------------------------ MODULE OutputRun ------------------------------
(* What one run may do to the output directory, as predicates on its directory before and after, its status and the    *)
(* files it wrote to. Output shows them to hold of every behaviour; OutputTrace judges recorded runs by them.           *)
(* C: version -> (file -> content)                                                                                     *)
Want(C, v, f) == C[v][f]
Of(C, v) == DOMAIN C[v]

(* status 0 means that every file of this version is complete and right *)
CompleteRun(C, v, post, status) == status = "0" => \A f \in Of(C, v) : post[f] = Want(C, v, f)
(* files that were up to date are left alone *)
QuietRun(C, v, before, tch, always) == \A f \in tch : f \in always \/ f \notin Of(C, v) \/ before[f] # Want(C, v, f)
(* files that no version generates are left alone *)
OthersRun(C, v, before, post) == \A f \in DOMAIN post \ UNION {Of(C, x) : x \in DOMAIN C} : before[f] # "absent" => post[f] = before[f]
(* a run fails only for a reason *)
ReasonRun(C, v, before, status, flt) == status = "1" => flt \/ \E f \in Of(C, v) : before[f] = "blocked"

=============================================================================

------------------------------ MODULE MCOutput ------------------------------
(* small constants: two versions that differ in one binding file, of which one has one more, and a file of the user's; "partial" stands for any wrong content *)
EXTENDS Output
MCContent == [v1 |-> [root |-> "R1", s1 |-> "A", s2 |-> "B"], v2 |-> [root |-> "R2", s1 |-> "C"]]
MCFiles == {"root", "s1", "s2"}
MCFiles4 == MCFiles \cup {"user"}
MCAlways == {"root"}
=============================================================================

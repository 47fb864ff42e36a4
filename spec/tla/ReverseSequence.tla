--------------------------- MODULE ReverseSequence ---------------------------
(* Reversing a sequence x0 -> x1 -> ... -> xn with at most c stored states:   *)
(* what any strategy may do.  A state is handed out from storage.             *)
EXTENDS Checkpoints
CONSTANTS MaxSteps, MaxCheckpoints
VARIABLES n, c,     \* number of steps, number of checkpoints
          stored,   \* indices of the stored states
          work,     \* index of the working copy, or -1
          left,     \* number of states not handed out yet
          fwd,      \* forward evaluations so far
          handed    \* indices handed out, in order
vars == <<n, c, stored, work, left, fwd, handed>>

Init == /\ n \in 0..MaxSteps /\ c \in 2..MaxCheckpoints
        /\ stored = {0} /\ work = -1 /\ left = n + 1 /\ fwd = 0 /\ handed = <<>>

Load == \E p \in stored : work' = p /\ UNCHANGED <<n, c, stored, left, fwd, handed>>
Discard == work >= 0 /\ work' = -1 /\ UNCHANGED <<n, c, stored, left, fwd, handed>>
Advance == /\ work >= 0 /\ work < n
           /\ work' = work + 1 /\ fwd' = fwd + 1
           /\ UNCHANGED <<n, c, stored, left, handed>>
Store == /\ work >= 0 /\ work \notin stored /\ Cardinality(stored) < c
         /\ stored' = stored \cup {work}
         /\ UNCHANGED <<n, c, work, left, fwd, handed>>
HandOut == /\ left > 0 /\ left - 1 \in stored
           /\ stored' = stored \ {left - 1}
           /\ handed' = Append(handed, left - 1)
           /\ left' = left - 1 /\ work' = -1
           /\ UNCHANGED <<n, c, fwd>>
Next == Load \/ Discard \/ Advance \/ Store \/ HandOut
Spec == Init /\ [][Next]_vars

Done == left = 0
TypeOK == /\ stored \subseteq 0..n /\ work \in -1..n /\ left \in 0..(n + 1)
(* C11: every state once, from last to first *)
InOrder == handed = [k \in 1..(n + 1 - left) |-> n + 1 - k]
(* C12 *)
Memory == Cardinality(stored) <= c
NoneBelowOptimum == Done => fwd >= Optimum(n, c)
\* it is enough to look at runs cheaper than the claimed optimum
Cheaper == fwd < Optimum(n, c) \/ n = 0
NothingCheaper == Done => n = 0
=============================================================================

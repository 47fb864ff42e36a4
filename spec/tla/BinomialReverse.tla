-------------------------- MODULE BinomialReverse --------------------------
(* The binomial schedule of src/drivers/checkpointing.rs, transcribed.        *)
(* It is one of the strategies of ReverseSequence and attains the optimum.    *)
EXTENDS ReverseSequence
VARIABLES pc,       \* "plan", "advance", "reverse", "end"
          goal      \* storage indices still to be reached in this phase
bvars == <<vars, pc, goal>>

Beta(a, t) == IF a <= 0 \/ t <= 0 THEN 0 ELSE BinomP(a + t, a)
FindT(a, r) == IF a = 1 THEN (IF r > 0 THEN r - 1 ELSE 0)
               ELSE CHOOSE t \in 0..r : r <= Beta(a, t) /\ \A u \in 0..(t - 1) : Beta(a, u) < r
NextCheckpoint(a, r) ==
  IF a <= 0 \/ r = 0 THEN 0 ELSE
  LET t == FindT(a, r) IN
  IF r <= Beta(a, t - 1) + Beta(a - 2, t - 1) THEN Beta(a, t - 2)
  ELSE IF r >= Beta(a, t) - Beta(a - 3, t) THEN Beta(a, t - 1)
  ELSE r - Beta(a - 1, t - 1) - Beta(a - 2, t - 1)
Clamp(x, hi) == IF x < 1 THEN 1 ELSE IF x > hi THEN hi ELSE x
\* storage indices, relative to the last stored state, for r states and a slots
RECURSIVE Schedule(_, _, _)
Schedule(a, r, offset) ==
  IF r > 1 /\ a > 0 THEN
    LET k == IF r - 1 <= a THEN 1
             ELSE IF a = 1 THEN r - 1
             ELSE IF r > 2 THEN Clamp(NextCheckpoint(a, r), r - 1) ELSE 1
    IN  <<offset + k>> \o Schedule(a - 1, r - k, offset + k)
  ELSE <<>>

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
BInit == Init /\ pc = "plan" /\ goal = <<>>
Plan == /\ pc = "plan" /\ left > 0
        /\ Load /\ work' = Max(stored)
        /\ goal' = Schedule(c - Cardinality(stored), left - Max(stored), Max(stored))
        /\ pc' = IF goal' = <<>> THEN "reverse" ELSE "advance"
BAdvance == /\ pc = "advance" /\ work < Head(goal) /\ Advance /\ UNCHANGED <<pc, goal>>
BStore == /\ pc = "advance" /\ work = Head(goal) /\ Store
          /\ goal' = Tail(goal) /\ pc' = IF Tail(goal) = <<>> THEN "reverse" ELSE "advance"
Reverse == /\ pc = "reverse" /\ HandOut /\ UNCHANGED goal
           /\ pc' = IF left' = 0 THEN "end" ELSE "plan"
BNext == Plan \/ BAdvance \/ BStore \/ Reverse
BSpec == BInit /\ [][BNext]_bvars

Optimal == Done => fwd = Optimum(n, c)
NeverStuck == pc = "end" \/ ENABLED BNext
Terminates == pc = "end" => Done /\ stored = {}
Refines == Spec
=============================================================================

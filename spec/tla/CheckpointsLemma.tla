-------------------------- MODULE CheckpointsLemma --------------------------
(* The dynamic program over all splits, filled in row by row, agrees with    *)
(* the closed form of Checkpoints.tla.                                       *)
(* best[s][r]: least number of forward evaluations that hands out r states   *)
(* in descending order when the first of them is stored, s further slots are *)
(* free, and a state has to be stored before it is handed out.               *)
EXTENDS Checkpoints, TLC
CONSTANTS S, R
VARIABLE best
Infinite == 1000000
Get(s, r) == IF r <= 1 THEN 0 ELSE IF s = 0 THEN Infinite ELSE best[s][r]
Init == best = <<<<0>>>>
Compute(s, r) == Min({k + Get(s - 1, r - k) + Get(s, k) : k \in 1..(r - 1)})
Next ==
  LET s == Len(best) r == Len(best[s]) IN
  IF r < R THEN best' = [best EXCEPT ![s] = Append(@, Compute(s, r + 1))]
  ELSE /\ s < S
       /\ best' = Append(best, <<0>>)
Spec == Init /\ [][Next]_best
ClosedForm ==
  LET s == Len(best) r == Len(best[s]) IN best[s][r] = Optimum(r - 1, s + 1)
AllFit == LET s == Len(best) r == Len(best[s]) IN r <= s + 1 => best[s][r] = r - 1
ASSUME \A a \in 0..12, b \in 0..12 : b <= a => Binom(a, b) = BinomP(a, b)
=============================================================================

---------------------------- MODULE Checkpoints ----------------------------
(* The cost of reversing a sequence with a limited number of stored states. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 \/ b = a THEN 1 ELSE IF b > a THEN 0 ELSE Binom(a - 1, b - 1) + Binom(a - 1, b)

\* a product form that stays within 32 bits for the sizes used here
RECURSIVE Prod(_, _)
Prod(a, b) == IF b = 0 THEN 1 ELSE (Prod(a, b - 1) * (a - b + 1)) \div b
BinomP(a, b) == IF b > a THEN 0 ELSE Prod(a, IF b <= a - b THEN b ELSE a - b)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Closed form: among the r-1 forward steps, Binom(s+t-1, t) can be arranged  *)
(* to be evaluated exactly t times; take the cheapest ones first.             *)
RECURSIVE Fill(_, _, _)
Fill(left, s, t) ==
  LET k == BinomP(s + t - 1, t) IN
  IF left <= k THEN left * t ELSE k * t + Fill(left - k, s, t + 1)

Optimum(nsteps, ncheckpoints) == IF nsteps = 0 THEN 0 ELSE Fill(nsteps, ncheckpoints - 1, 1)
=============================================================================

---------------------------- MODULE ReverseTrace ----------------------------
(* Runs of the real reverse_sequence, event by event.  The events are those   *)
(* of the state type (clone, drop) and of the three closures.  A live state   *)
(* is either one of the c stored ones or the working copy.                    *)
EXTENDS Checkpoints, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, live, alive, left, fwd
vars == <<t, l, live, alive, left, fwd>>

Ev == Traces[t].ev
N == Traces[t].n
C == Traces[t].c
Init == /\ t \in 1..Len(Traces) /\ l = 1
        /\ live = [i \in {0} |-> 1] /\ alive = 1     \* bag of live states
        /\ left = N + 1 /\ fwd = 0

Has(i) == i \in DOMAIN live /\ live[i] > 0
Minus(b, i) == IF b[i] = 1 THEN [j \in DOMAIN b \ {i} |-> b[j]] ELSE [b EXCEPT ![i] = @ - 1]
Plus(b, i) == [j \in DOMAIN b \cup {i} |-> IF j = i THEN (IF j \in DOMAIN b THEN b[j] ELSE 0) + 1 ELSE b[j]]

\* the event at l is one the specification allows here
Kind == Ev[l][1]
Pos == Ev[l][2]
Arg == Ev[l][3]
Legal ==
  CASE Kind = "clone"    -> Has(Pos)
    [] Kind = "drop"     -> Has(Pos)
    [] Kind = "forward"  -> Has(Pos) /\ Pos < N
    [] Kind = "identity" -> Has(Pos) /\ Pos = N /\ left = N + 1
    [] Kind = "reverse"  -> Has(Pos) /\ left <= N /\ Pos = left - 1 /\ Arg = left
    [] Kind = "return"   -> left = 0 /\ Arg = 0
    [] OTHER -> FALSE
Step ==
  /\ l <= Len(Ev) /\ Legal /\ l' = l + 1 /\ t' = t
  /\ CASE Kind = "clone"   -> /\ live' = Plus(live, Pos) /\ alive' = alive + 1
                              /\ UNCHANGED <<left, fwd>>
       [] Kind = "drop"    -> /\ live' = Minus(live, Pos) /\ alive' = alive - 1
                              /\ UNCHANGED <<left, fwd>>
       [] Kind = "forward" -> /\ live' = Plus(Minus(live, Pos), Pos + 1) /\ fwd' = fwd + 1
                              /\ UNCHANGED <<left, alive>>
       [] Kind \in {"identity", "reverse"} ->
                              /\ live' = Minus(live, Pos) /\ alive' = alive - 1 /\ left' = left - 1
                              /\ UNCHANGED fwd
       [] OTHER -> UNCHANGED <<live, alive, left, fwd>>
Next == Step
Spec == Init /\ [][Next]_vars

AtEnd == l > Len(Ev)
(* C11 *)
EveryStepLegal == AtEnd \/ Legal
ReversedAll == AtEnd => Len(Ev) > 0 /\ Ev[Len(Ev)][1] = "return"
(* C12 *)
WithinMemory == alive <= C + 1
WithinBudget == (AtEnd /\ left = 0) => fwd = Optimum(N, C)
NotOverBudget == fwd <= Optimum(N, C)
=============================================================================

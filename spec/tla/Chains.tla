------------------------------- MODULE Chains -------------------------------
(* Function objects and chains: construction, appending, nesting.            *)
(* Leaf k maps x to y with y_i = 3 * (1*x_1 + 2*x_2 + ...) + 10*k + i, so the *)
(* result shows which leaves were applied, and in which order.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Leaves,    \* number of leaf functions
          Dims,      \* possible dimensions
          MaxOps
VARIABLES dims,      \* dimensions of the leaves
          pool,      \* objects owned by the program: functions, chains, or gone
          hist       \* how this state was reached (not part of the state)
view == <<dims, pool>>

Gone == [kind |-> "gone", n |-> 0, m |-> 0, leaves |-> <<>>, shape |-> <<>>]
Leaf(k, n, m) == [kind |-> "fn", n |-> n, m |-> m, leaves |-> <<[k |-> k, n |-> n, m |-> m]>>, shape |-> <<"f">>]

RECURSIVE Weighted(_, _)
Weighted(x, j) == IF j > Len(x) THEN 0 ELSE j * x[j] + Weighted(x, j + 1)
Apply(leaf, x) == [i \in 1..leaf.m |-> 3 * Weighted(x, 1) + 10 * leaf.k + i]
RECURSIVE Eval(_, _)
Eval(ls, x) == IF ls = <<>> THEN x ELSE Eval(Tail(ls), Apply(Head(ls), x))
Input(n) == [j \in 1..n |-> j + 1]

Init == /\ hist = <<>>
        /\ \E ns, ms \in [1..Leaves -> Dims] :
             /\ dims = [k \in 1..Leaves |-> <<ns[k], ms[k]>>]
             /\ pool = [k \in 1..Leaves |-> Leaf(k, ns[k], ms[k])]

\* FunctionChain::new / from_boxed: the object becomes the first member of a new chain
MkChain(i) == /\ pool[i].kind # "gone"
              /\ UNCHANGED dims
              /\ pool' = [pool EXCEPT ![i].kind = "chain", ![i].shape = <<"(">> \o pool[i].shape \o <<")">>]
              /\ hist' = Append(hist, <<"chain", i, 0, TRUE>>)
\* append: the member has to fit; a refused member is lost, the chain stays as it was
Fits(i, j) == pool[i].m = pool[j].n
AppendTo(i, j) ==
  /\ i # j /\ pool[i].kind = "chain" /\ pool[j].kind # "gone"
  /\ hist' = Append(hist, <<"append", i, j, Fits(i, j)>>)
  /\ UNCHANGED dims
  /\ pool' = IF Fits(i, j)
             THEN [pool EXCEPT ![i].m = pool[j].m, ![i].leaves = pool[i].leaves \o pool[j].leaves,
                                 ![i].shape = SubSeq(pool[i].shape, 1, Len(pool[i].shape) - 1) \o pool[j].shape \o <<")">>,
                                 ![j] = Gone]
             ELSE [pool EXCEPT ![j] = Gone]
Next == Len(hist) < MaxOps /\ \E i, j \in 1..Leaves : MkChain(i) \/ AppendTo(i, j)
Spec == Init /\ [][Next]_<<dims, pool, hist>>

\* ---- what has to hold ----
Alive == {i \in 1..Leaves : pool[i].kind # "gone"}
\* members fit together, dimensions come from the first and the last member
WellFormed == \A i \in Alive :
  LET ls == pool[i].leaves IN
  /\ ls # <<>> /\ pool[i].n = ls[1].n /\ pool[i].m = ls[Len(ls)].m
  /\ \A q \in 1..(Len(ls) - 1) : ls[q].m = ls[q + 1].n
Flat(sh) == SelectSeq(sh, LAMBDA t : t = "f")
ShapeCounts == \A i \in Alive : Len(Flat(pool[i].shape)) = Len(pool[i].leaves)
NoLeafTwice == \A i, j \in Alive : \A p \in 1..Len(pool[i].leaves), q \in 1..Len(pool[j].leaves) :
  pool[i].leaves[p] = pool[j].leaves[q] => i = j /\ p = q
RightLength == \A i \in Alive : Len(Eval(pool[i].leaves, Input(pool[i].n))) = pool[i].m

\* ---- every transition is printed with the path to it, and replayed on the real chains ----
Obs(p) == [i \in 1..Leaves |-> [kind |-> p[i].kind, n |-> p[i].n, m |-> p[i].m, leaves |-> p[i].leaves,
                                y |-> IF p[i].kind = "gone" THEN <<>> ELSE Eval(p[i].leaves, Input(p[i].n))]]
Emit == PrintT("@@" \o ToJson([dims |-> dims, hist |-> hist', pool |-> Obs(pool')]))
\* long random walks: only a few points of each are printed
EmitSome == Len(hist') \in {MaxOps \div 2, MaxOps} => Emit
=============================================================================

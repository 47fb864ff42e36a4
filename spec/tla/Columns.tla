------------------------------ MODULE Columns ------------------------------
(* The parallel drivers: every caller needs the answers for its directions     *)
(* 1..W[c]; workers claim directions in any order, evaluate them concurrently   *)
(* and the answers are collected in the order in which they come in.  Whatever   *)
(* the order, column j of the result is the answer for direction j.              *)
(* With Emit, the order of the starts and ends is logged, to be imposed on the    *)
(* real drivers (which worker claims what is up to them).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs,  \* set of [p |-> pool size, w |-> directions per caller, m |-> length of the answers]
          Emit, Assembly, Buffer
VARIABLES cfg, todo, slot, buf, out, hist
vars == <<cfg, todo, slot, buf, out, hist>>

Callers == DOMAIN cfg.w
Slots == 1..cfg.p
\* the entries of the matrix, all different, also between callers
Coef(c, i, j) == 1 + 997 * (c - 1) + 31 * (i - 1) + (j - 1)
Answer(c, dir) == [i \in 1..cfg.m |-> Coef(c, i, dir)]
Idle == [pc |-> "idle", c |-> 0, col |-> 0]

Init == /\ cfg \in Configs
        /\ todo = [c \in DOMAIN cfg.w |-> 1..cfg.w[c]]
        /\ slot = [s \in 1..cfg.p |-> Idle]
        /\ buf = [s \in 1..cfg.p |-> 0]
        /\ out = [c \in DOMAIN cfg.w |-> <<>>]
        /\ hist = <<>>

Busy == {s \in Slots : slot[s].pc # "idle"}
Claimable == {<<c, j>> \in UNION {{c} \X todo[c] : c \in Callers} : TRUE}
First == CHOOSE x \in Claimable : \A y \in Claimable : x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
FirstIdle == CHOOSE s \in Slots \ Busy : \A t \in Slots \ Busy : s <= t
Full == Busy = Slots \/ Claimable = {}
\* where a worker keeps its direction; "shared" is the mistake of keeping it in one place for all
B(s) == IF Buffer = "shared" THEN 1 ELSE s

Claim(s, x) == /\ slot' = [slot EXCEPT ![s] = [pc |-> "claimed", c |-> x[1], col |-> x[2]]]
               /\ todo' = [todo EXCEPT ![x[1]] = @ \ {x[2]}]
               /\ UNCHANGED <<cfg, buf, out, hist>>
Start(s) == /\ slot[s].pc = "claimed"
            /\ slot' = [slot EXCEPT ![s].pc = "running"]
            /\ buf' = [buf EXCEPT ![B(s)] = slot[s].col]
            /\ UNCHANGED <<cfg, todo, out>>
Finish(s) == /\ slot[s].pc = "running"
             /\ out' = [out EXCEPT ![slot[s].c] = Append(@, <<slot[s].col, Answer(slot[s].c, buf[B(s)])>>)]
             /\ slot' = [slot EXCEPT ![s] = Idle]
             /\ UNCHANGED <<cfg, todo, buf>>
\* the position of s among the workers that wait
Pick(s) == Cardinality({t \in Busy : t < s})
Log(s) == hist' = IF Emit THEN Append(hist, Pick(s)) ELSE hist

Next == \/ IF Emit THEN ~Full /\ Claim(FirstIdle, First)
           ELSE \E s \in Slots \ Busy, x \in Claimable : Claim(s, x)
        \/ /\ Emit => Full
           /\ \E s \in Slots : (Start(s) \/ Finish(s)) /\ Log(s)

Done == \A c \in Callers : Len(out[c]) = cfg.w[c]
\* "position" is the mistake of taking the answers in the order they came in
Column(c, j) == IF Assembly = "index" THEN (CHOOSE k \in 1..Len(out[c]) : out[c][k][1] = j) ELSE j
Result(c) == [j \in 1..cfg.w[c] |-> out[c][Column(c, j)][2]]
Expected(c) == [j \in 1..cfg.w[c] |-> Answer(c, j)]

Independent == Done => \A c \in Callers : Result(c) = Expected(c)
OnceEach == \A c \in Callers : \A j \in 1..cfg.w[c] :
              Cardinality({k \in 1..Len(out[c]) : out[c][k][1] = j})
              + Cardinality({s \in Busy : slot[s].c = c /\ slot[s].col = j})
              + (IF j \in todo[c] THEN 1 ELSE 0) = 1
Terminates == (~ENABLED Next) => Done

Say == (Emit /\ Done) => PrintT("@@" \o ToJson([p |-> cfg.p, w |-> cfg.w, m |-> cfg.m, picks |-> hist,
          cols |-> [c \in Callers |-> Result(c)]]))
=============================================================================

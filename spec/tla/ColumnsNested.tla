---------------------------- MODULE ColumnsNested ----------------------------
(* The same drivers when evaluations are not atomic for the worker that runs     *)
(* them: a user's evaluation may itself hand work to the thread pool, and while   *)
(* it waits the worker takes up another direction of any call ("yield"), or it     *)
(* may call a driver itself ("call").  A worker is a stack of evaluations.  The     *)
(* answers must not notice.  With Emit, the decisions taken at the two gates of    *)
(* every evaluation are logged, to be taken by the evaluations of the real drivers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs,  \* set of [p, w, m, yields, calls, inner]: workers, directions per caller, ..., bounds, width of a nested call
          Emit, Buffer
VARIABLES cfg, w, todo, stack, buf, out, left, hist
vars == <<cfg, w, todo, stack, buf, out, left, hist>>

Calls == DOMAIN w
Workers == 1..cfg.p
Coef(c, i, j) == 1 + 997 * (c - 1) + 31 * (i - 1) + (j - 1)
Answer(c, dir) == [i \in 1..cfg.m |-> Coef(c, i, dir)]
Depth == 6
Init == /\ cfg \in Configs
        /\ w = cfg.w
        /\ todo = [c \in DOMAIN cfg.w |-> 1..cfg.w[c]]
        /\ stack = [s \in 1..cfg.p |-> <<>>]
        /\ buf = [s \in 1..cfg.p |-> [d \in 1..Depth |-> 0]]
        /\ out = [c \in DOMAIN cfg.w |-> <<>>]
        /\ left = [yields |-> cfg.yields, calls |-> cfg.calls]
        /\ hist = <<>>

Claimable == {<<c, j>> \in UNION {{c} \X todo[c] : c \in Calls} : TRUE}
First == CHOOSE x \in Claimable : \A y \in Claimable : x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
Top(s) == stack[s][Len(stack[s])]
Upd(s, f) == stack' = [stack EXCEPT ![s] = [@ EXCEPT ![Len(@)] = f]]
\* where an evaluation keeps its direction; "worker" is the mistake of one place per worker
Place(d) == IF Buffer = "worker" THEN 1 ELSE d
Log(k) == hist' = IF Emit THEN Append(hist, k) ELSE hist

Eval(x) == [k |-> "eval", c |-> x[1], col |-> x[2], gate |-> 1]
\* may worker s take up a direction?  Yes when it has nothing to do, when the evaluation on top lets it, when the call on top needs it
Takes(s) == IF stack[s] = <<>> THEN TRUE ELSE Len(stack[s]) < Depth /\ Top(s).k # "eval"
Take(s) == /\ Takes(s)
           /\ \E x \in IF Emit THEN (IF Claimable = {} THEN {} ELSE {First}) ELSE Claimable :
                 /\ todo' = [todo EXCEPT ![x[1]] = @ \ {x[2]}]
                 /\ LET below == IF stack[s] # <<>> /\ Top(s).k = "yield" THEN SubSeq(stack[s], 1, Len(stack[s]) - 1) ELSE stack[s]
                    IN /\ stack' = [stack EXCEPT ![s] = Append(below, Eval(x))]
                       /\ buf' = [buf EXCEPT ![s][Place(Len(below) + 1)] = x[2]]
           /\ UNCHANGED <<cfg, w, out, left, hist>>
\* nothing there to be taken up
NoTake(s) == /\ stack[s] # <<>> /\ Top(s).k = "yield" /\ (Claimable = {} \/ Len(stack[s]) >= Depth)
             /\ stack' = [stack EXCEPT ![s] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<cfg, w, todo, buf, out, left, hist>>
Pass(s, f) == IF f.gate = 1 THEN Upd(s, [f EXCEPT !.gate = 2])
              ELSE stack' = [stack EXCEPT ![s] = SubSeq(@, 1, Len(@) - 1)]
Gate(s) == /\ stack[s] # <<>> /\ Top(s).k = "eval"
           /\ LET f == Top(s) IN
              \/ \* go on
                 /\ f.gate < 3 /\ Pass(s, f) /\ Log(0)
                 /\ out' = IF f.gate = 1 THEN out
                           ELSE [out EXCEPT ![f.c] = Append(@, <<f.col, Answer(f.c, buf[s][Place(Len(stack[s]))])>>)]
                 /\ UNCHANGED <<cfg, w, todo, buf, left>>
              \/ \* let the worker do something else, here
                 /\ f.gate < 3 /\ left.yields > 0 /\ Len(stack[s]) < Depth - 1
                 /\ left' = [left EXCEPT !.yields = @ - 1]
                 /\ stack' = [stack EXCEPT ![s] = Append([@ EXCEPT ![Len(@)].gate = @ + 10], [k |-> "yield", c |-> 0, col |-> 0, gate |-> 0])]
                 /\ Log(1)
                 /\ UNCHANGED <<cfg, w, todo, buf, out>>
              \/ \* call a driver
                 /\ f.gate < 3 /\ left.calls > 0 /\ Len(stack[s]) < Depth - 1
                 /\ left' = [left EXCEPT !.calls = @ - 1]
                 /\ w' = Append(w, cfg.inner) /\ todo' = Append(todo, 1..cfg.inner) /\ out' = Append(out, <<>>)
                 /\ stack' = [stack EXCEPT ![s] = Append([@ EXCEPT ![Len(@)].gate = @ + 10], [k |-> "call", c |-> Len(w) + 1, col |-> 0, gate |-> 0])]
                 /\ Log(2)
                 /\ UNCHANGED <<cfg, buf>>
              \/ \* after the detour
                 /\ f.gate > 10
                 /\ Pass(s, [f EXCEPT !.gate = @ - 10])
                 /\ out' = IF f.gate = 11 THEN out
                           ELSE [out EXCEPT ![f.c] = Append(@, <<f.col, Answer(f.c, buf[s][Place(Len(stack[s]))])>>)]
                 /\ UNCHANGED <<cfg, w, todo, buf, left, hist>>
\* a nested call is over when all its answers are there
Return(s) == /\ stack[s] # <<>> /\ Top(s).k = "call" /\ Len(out[Top(s).c]) = w[Top(s).c]
             /\ stack' = [stack EXCEPT ![s] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<cfg, w, todo, buf, out, left, hist>>
Next == \E s \in Workers : Take(s) \/ NoTake(s) \/ Gate(s) \/ Return(s)

Done == \A c \in Calls : Len(out[c]) = w[c]
Column(c, j) == CHOOSE k \in 1..Len(out[c]) : out[c][k][1] = j
Result(c) == [j \in 1..w[c] |-> out[c][Column(c, j)][2]]
Expected(c) == [j \in 1..w[c] |-> Answer(c, j)]
Complete(c) == Len(out[c]) = w[c]
Independent == \A c \in Calls : Complete(c) => Result(c) = Expected(c)
OnceEach == \A c \in Calls : \A j \in 1..w[c] :
              Cardinality({k \in 1..Len(out[c]) : out[c][k][1] = j})
              + Cardinality({<<s, d>> \in Workers \X (1..Depth) : d <= Len(stack[s]) /\ stack[s][d].k = "eval" /\ stack[s][d].c = c /\ stack[s][d].col = j})
              + (IF j \in todo[c] THEN 1 ELSE 0) = 1
\* no decision of an evaluation leaves the workers stuck
Terminates == (~ENABLED Next) => Done /\ \A s \in Workers : stack[s] = <<>>
Idle == \A s \in Workers : stack[s] = <<>>
Say == (Emit /\ Done /\ Idle) => PrintT("@@" \o ToJson([nested |-> TRUE, p |-> cfg.p, w |-> cfg.w, m |-> cfg.m, inner |-> cfg.inner, picks |-> hist,
          cols |-> [c \in Calls |-> Result(c)]]))
=============================================================================

------------------------------- MODULE Handles -------------------------------
(* Ownership in the C++ interface: storage that may hold a variable or a       *)
(* context; construction, copy, move, assignment, swapping and destruction in  *)
(* any order; expressions over variables, plain numbers on either side.        *)
(* What a variable holds is a node of the computation, so that copies, moves   *)
(* and assignments are decided here; the replayer evaluates the nodes on the   *)
(* Rust interface.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, NC, MaxHist, MaxCtx, Consts, Bin, Un, Fn2, Script, Acts
VARIABLES v,      \* storage of variables: [st, n]; st none, live or moved; n a node
          k,      \* storage of contexts: [st, c]
          nodes,  \* everything computed so far, in order: [op, a, b, k, c]; c: recording it belongs to, 0 for none
          nctx,   \* contexts created so far
          deps,   \* what was marked dependent: sequence of [c, n]
          hist
vars == <<v, k, nodes, nctx, deps, hist>>
view == <<v, k, nodes, nctx, deps>>
S == 1..NS
C == 1..NC
None == [st |-> "none", n |-> 0]
KNone == [st |-> "none", c |-> 0]
Alive(c) == \E x \in C : k[x].st = "live" /\ k[x].c = c
Is(s) == v[s].st = "live"
Ctx(s) == nodes[v[s].n].c
\* variables of two recordings do not mix
Mix(a, b) == Ctx(a) = 0 \/ Ctx(b) = 0 \/ Ctx(a) = Ctx(b)
Result(c) == IF c # 0 /\ Alive(c) THEN c ELSE 0
Both(a, b) == IF Ctx(a) # 0 THEN Ctx(a) ELSE Ctx(b)

E(act, s, a, b, op, x) == [act |-> act, s |-> s, a |-> a, b |-> b, op |-> op, k |-> x]
Log(e) == /\ Len(hist) < MaxHist
          /\ e.act \in Acts
          /\ hist' = Append(hist, e)
          /\ Len(hist) < Len(Script) => Script[Len(hist) + 1] = e
\* the storage s gets the result of an expression: constructed when empty, assigned otherwise
Put(s, op, a, b, x, c) ==
  /\ nodes' = Append(nodes, [op |-> op, a |-> a, b |-> b, k |-> x, c |-> c])
  /\ v' = [v EXCEPT ![s] = [st |-> "live", n |-> Len(nodes) + 1]]

Init == /\ v = [s \in S |-> None] /\ k = [c \in C |-> KNone]
        /\ nodes = <<>> /\ nctx = 0 /\ deps = <<>> /\ hist = <<>>

Default(s) == /\ v[s].st = "none" /\ Put(s, "default", 0, 0, 0, 0)
              /\ Log(E("default", s, 0, 0, "", 0)) /\ UNCHANGED <<k, nctx, deps>>
Value(s, x) == /\ Put(s, "const", 0, 0, x, 0)
               /\ Log(E("value", s, 0, 0, "", x)) /\ UNCHANGED <<k, nctx, deps>>
Copy(s, t) == /\ Is(t) /\ (v[s].st = "none" => s # t)
              /\ v' = [v EXCEPT ![s] = v[t]]
              /\ Log(E("copy", s, t, 0, "", 0)) /\ UNCHANGED <<k, nodes, nctx, deps>>
\* self-move leaves the object valid, holding anything
Move(s, t) == /\ Is(t)
              /\ v' = IF s = t THEN [v EXCEPT ![s] = [st |-> "moved", n |-> 0]]
                      ELSE [v EXCEPT ![s] = v[t], ![t] = [st |-> "moved", n |-> 0]]
              /\ Log(E("move", s, t, 0, "", 0)) /\ UNCHANGED <<k, nodes, nctx, deps>>
\* through a growing vector and a function taking and returning by value
Via(s, t) == /\ Is(t) /\ v' = [v EXCEPT ![s] = v[t]]
             /\ Log(E("via", s, t, 0, "", 0)) /\ UNCHANGED <<k, nodes, nctx, deps>>
Swap(s, t) == /\ Is(s) /\ Is(t) /\ s < t
              /\ v' = [v EXCEPT ![s] = v[t], ![t] = v[s]]
              /\ Log(E("swap", s, t, 0, "", 0)) /\ UNCHANGED <<k, nodes, nctx, deps>>
Destroy(s) == /\ v[s].st # "none" /\ v' = [v EXCEPT ![s] = None]
              /\ Log(E("destroy", s, 0, 0, "", 0)) /\ UNCHANGED <<k, nodes, nctx, deps>>

KNew(c) == /\ k[c].st = "none" /\ nctx < MaxCtx
           /\ nctx' = nctx + 1 /\ k' = [k EXCEPT ![c] = [st |-> "live", c |-> nctx + 1]]
           /\ Log(E("knew", c, 0, 0, "", 0)) /\ UNCHANGED <<v, nodes, deps>>
\* a temporary moved in: the context held before is gone
KRenew(c) == /\ k[c].st # "none" /\ nctx < MaxCtx
             /\ nctx' = nctx + 1 /\ k' = [k EXCEPT ![c] = [st |-> "live", c |-> nctx + 1]]
             /\ Log(E("krenew", c, 0, 0, "", 0)) /\ UNCHANGED <<v, nodes, deps>>
KMove(c, d) == /\ k[d].st = "live"
               /\ c = d => \A n \in 1..Len(nodes) : nodes[n].c # k[c].c
               /\ k' = IF c = d THEN [k EXCEPT ![c] = [st |-> "moved", c |-> 0]]
                       ELSE [k EXCEPT ![c] = k[d], ![d] = [st |-> "moved", c |-> 0]]
               /\ Log(E("kmove", c, d, 0, "", 0)) /\ UNCHANGED <<v, nodes, nctx, deps>>
KDestroy(c) == /\ k[c].st # "none" /\ k' = [k EXCEPT ![c] = KNone]
               /\ Log(E("kdestroy", c, 0, 0, "", 0)) /\ UNCHANGED <<v, nodes, nctx, deps>>

Indep(s, c) == /\ k[c].st = "live" /\ Put(s, "indep", 0, 0, k[c].c, k[c].c)
               /\ Log(E("indep", s, c, 0, "", 0)) /\ UNCHANGED <<k, nctx, deps>>
Dep(c, s) == /\ k[c].st = "live" /\ Is(s) /\ Ctx(s) \in {0, k[c].c}
             /\ deps' = Append(deps, [c |-> k[c].c, n |-> v[s].n])
             /\ Log(E("dep", c, s, 0, "", 0)) /\ UNCHANGED <<v, k, nodes, nctx>>
Binary(s, a, b, op) == /\ Is(a) /\ Is(b) /\ Mix(a, b)
                       /\ Put(s, op, v[a].n, v[b].n, 0, Result(Both(a, b)))
                       /\ Log(E("bin", s, a, b, op, 0)) /\ UNCHANGED <<k, nctx, deps>>
\* plain number on the left, on the right
Left(s, b, op, x) == /\ Is(b) /\ Put(s, op, 0, v[b].n, x, Result(Ctx(b)))
                     /\ Log(E("left", s, 0, b, op, x)) /\ UNCHANGED <<k, nctx, deps>>
Right(s, a, op, x) == /\ Is(a) /\ Put(s, op, v[a].n, 0, x, Result(Ctx(a)))
                      /\ Log(E("right", s, a, 0, op, x)) /\ UNCHANGED <<k, nctx, deps>>
Unary(s, a, op) == /\ Is(a) /\ Put(s, op, v[a].n, 0, 0, Result(Ctx(a)))
                   /\ Log(E("un", s, a, 0, op, 0)) /\ UNCHANGED <<k, nctx, deps>>
\* functions of plain numbers
Plain(op, x, y) == /\ Log(E("plain", 0, x, y, op, 0)) /\ UNCHANGED <<v, k, nodes, nctx, deps>>

Next ==
  \/ \E s \in S : Default(s) \/ Destroy(s) \/ \E x \in Consts : Value(s, x)
  \/ \E s, t \in S : Copy(s, t) \/ Move(s, t) \/ Via(s, t) \/ Swap(s, t)
  \/ \E c \in C : KNew(c) \/ KRenew(c) \/ KDestroy(c) \/ \E d \in C : KMove(c, d)
  \/ \E s \in S, c \in C : Indep(s, c) \/ Dep(c, s)
  \/ \E s, a, b \in S, op \in Bin \cup Fn2 : Binary(s, a, b, op)
  \/ \E s, a \in S, op \in Bin \cup Fn2, x \in Consts : Left(s, a, op, x) \/ Right(s, a, op, x)
  \/ \E s, a \in S, op \in Un : Unary(s, a, op)
  \/ \E x, y \in Consts, op \in Un \cup Fn2 : Plain(op, x, y)
Spec == Init /\ [][Next]_vars

\* ---- what has to hold ----
TypeOK == /\ \A s \in S : v[s].st \in {"none", "live", "moved"} /\ (Is(s) <=> v[s].n \in 1..Len(nodes))
          /\ \A c \in C : k[c].st = "live" <=> k[c].c \in 1..nctx
\* a context has one owner; nothing was computed into a recording from outside it
OneOwner == \A c, d \in C : k[c].st = "live" /\ k[d].st = "live" /\ k[c].c = k[d].c => c = d
Backwards == \A n \in 1..Len(nodes) : nodes[n].a < n /\ nodes[n].b < n
Separate == \A n \in 1..Len(nodes) : nodes[n].c # 0 =>
  \A m \in {nodes[n].a, nodes[n].b} \ {0} : nodes[m].c \in {0, nodes[n].c}
\* writing to one storage leaves the others alone: copies are independent
Others == [][\A s \in S : v'[s] # v[s] =>
  LET e == hist'[Len(hist')] IN s = e.s \/ (e.act \in {"move", "swap"} /\ s = e.a)]_vars
\* a dead context stays dead
Dead == [][\A c \in 1..nctx : ~Alive(c) => ~(\E x \in C : k'[x].st = "live" /\ k'[x].c = c)]_vars

Emit == (Len(hist') >= Len(Script)) =>
  PrintT("@@" \o ToJson([h |-> hist', v |-> v', k |-> k', nodes |-> nodes', deps |-> deps', nctx |-> nctx']))
EmitSome == Len(hist') % 12 = 0 => Emit
=============================================================================

------------------------------ MODULE Lifecycle ------------------------------
(* Contexts, handles and variables: creating, looking up, dropping, recording, *)
(* marking, and mixing variables of several contexts, stale ones included.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCtx, Handles, Vars, MaxOps, MaxLen
VARIABLES ctxs,     \* every context ever created: its recording
          handle,   \* handle slot -> context, 0 when empty
          var,      \* variable slot -> [c, id, val]; c = 0: not recorded
          hist
view == <<ctxs, handle, var>>
H == 1..Handles
V == 1..Vars
Empty == [indeps |-> <<>>, deps |-> <<>>, ops |-> <<>>, vals |-> <<>>]
Alive(c) == \E h \in H : handle[h] = c
Plain(x) == [c |-> 0, id |-> 0, val |-> x]

\* recording primitives (value ids count from zero)
Push(r, x) == [r EXCEPT !.vals = Append(@, x)]
OpRec(r, code, x, a, b) == [Push(r, x) EXCEPT !.ops = Append(@, [op |-> code, vid |-> Len(r.vals), a |-> a, b |-> b])]
\* the id of a variable in context c, recording a constant when it has none
WithConst(r, v) == IF v.c = 0 THEN [r |-> OpRec(r, "Const", v.val, -1, -1), id |-> Len(r.vals)] ELSE [r |-> r, id |-> v.id]

Init == /\ ctxs = <<>> /\ hist = <<>>
        /\ handle = [h \in H |-> 0]
        /\ var = [v \in V |-> Plain(v)]

Log(e) == hist' = Append(hist, e)
FreeSlot == CHOOSE h \in H : handle[h] = 0 /\ \A g \in H : handle[g] = 0 => h <= g
HasFree == \E h \in H : handle[h] = 0

New == /\ HasFree /\ Len(ctxs) < MaxCtx
       /\ ctxs' = Append(ctxs, Empty)
       /\ handle' = [handle EXCEPT ![FreeSlot] = Len(ctxs) + 1]
       /\ Log([a |-> "new", h |-> FreeSlot, x |-> 0, y |-> 0, z |-> 0, ok |-> TRUE])
       /\ UNCHANGED var
\* looking a context up makes another handle, exactly when it is alive
Lookup(c) == /\ HasFree /\ c \in 1..Len(ctxs)
             /\ handle' = IF Alive(c) THEN [handle EXCEPT ![FreeSlot] = c] ELSE handle
             /\ Log([a |-> "lookup", h |-> FreeSlot, x |-> c, y |-> 0, z |-> 0, ok |-> Alive(c)])
             /\ UNCHANGED <<ctxs, var>>
Drop(h) == /\ handle[h] # 0
           /\ handle' = [handle EXCEPT ![h] = 0]
           /\ Log([a |-> "drop", h |-> h, x |-> 0, y |-> 0, z |-> 0, ok |-> TRUE])
           /\ UNCHANGED <<ctxs, var>>
\* a variable becomes an independent of the context, whatever it was before
Indep(h, v) == LET c == handle[h] IN
  /\ c # 0
  /\ ctxs' = [ctxs EXCEPT ![c] = [Push(@, var[v].val) EXCEPT !.indeps = Append(@, Len(ctxs[c].vals))]]
  /\ var' = [var EXCEPT ![v] = [c |-> c, id |-> Len(ctxs[c].vals), val |-> var[v].val]]
  /\ Log([a |-> "indep", h |-> h, x |-> v, y |-> 0, z |-> 0, ok |-> TRUE])
  /\ UNCHANGED handle
\* a variable recorded elsewhere is refused
Dep(h, v) == LET c == handle[h]
                 ok == var[v].c \in {0, c}
                 k == WithConst(ctxs[c], var[v]) IN
  /\ c # 0
  /\ ctxs' = IF ok THEN [ctxs EXCEPT ![c] = [k.r EXCEPT !.deps = Append(@, k.id)]] ELSE ctxs
  /\ Log([a |-> "dep", h |-> h, x |-> v, y |-> 0, z |-> 0, ok |-> ok])
  /\ UNCHANGED <<handle, var>>
\* z := x + y
Sum(x, y, z) ==
  LET a == var[x]  b == var[y]
      c == IF a.c # 0 THEN a.c ELSE b.c
      ok == a.c = 0 \/ b.c = 0 \/ a.c = b.c
      s == a.val + b.val
      k1 == WithConst(ctxs[c], a)
      k2 == WithConst(k1.r, b) IN
  /\ s < 1000000
  /\ IF ok /\ c # 0 /\ Alive(c)
     THEN /\ ctxs' = [ctxs EXCEPT ![c] = OpRec(k2.r, "Add", s, k1.id, k2.id)]
          /\ var' = [var EXCEPT ![z] = [c |-> c, id |-> Len(k2.r.vals), val |-> s]]
     ELSE /\ ctxs' = ctxs
          /\ var' = IF ok THEN [var EXCEPT ![z] = Plain(s)] ELSE var
  /\ Log([a |-> "sum", h |-> 0, x |-> x, y |-> y, z |-> z, ok |-> ok])
  /\ UNCHANGED handle
\* x := |x|
Unary(x) ==
  LET a == var[x] IN
  /\ IF a.c # 0 /\ Alive(a.c)
     THEN /\ ctxs' = [ctxs EXCEPT ![a.c] = OpRec(@, "Abs", a.val, a.id, -1)]
          /\ var' = [var EXCEPT ![x] = [a EXCEPT !.id = Len(ctxs[a.c].vals)]]
     ELSE /\ ctxs' = ctxs /\ var' = [var EXCEPT ![x] = Plain(a.val)]
  /\ Log([a |-> "abs", h |-> 0, x |-> x, y |-> 0, z |-> 0, ok |-> TRUE])
  /\ UNCHANGED handle
\* x := a plain number
Reset(x) == /\ var[x].c # 0
            /\ var' = [var EXCEPT ![x] = Plain(x)]
            /\ Log([a |-> "reset", h |-> 0, x |-> x, y |-> 0, z |-> 0, ok |-> TRUE])
            /\ UNCHANGED <<ctxs, handle>>

Next == Len(hist) < MaxOps /\
  \/ New
  \/ \E c \in 1..Len(ctxs) : Lookup(c)
  \/ \E h \in H : Drop(h) \/ \E v \in V : Indep(h, v) \/ Dep(h, v)
  \/ \E x, y, z \in V : z \in {x, y, Vars} /\ Sum(x, y, z)
  \/ \E x \in V : Unary(x) \/ Reset(x)
Small == \A c \in 1..Len(ctxs) : Len(ctxs[c].vals) <= MaxLen
Spec == Init /\ [][Next]_<<ctxs, handle, var, hist>>

\* ---- what has to hold ----
\* a variable refers to a value of its own context
VarsMeanIt == \A v \in V : var[v].c # 0 => /\ var[v].id < Len(ctxs[var[v].c].vals)
                                           /\ ctxs[var[v].c].vals[var[v].id + 1] = var[v].val
\* a recording only refers to itself, backwards
Closed == \A c \in 1..Len(ctxs) : LET r == ctxs[c] IN
  /\ Len(r.indeps) + Len(r.ops) = Len(r.vals)
  /\ \A k \in 1..Len(r.ops) : r.ops[k].a < r.ops[k].vid /\ r.ops[k].b < r.ops[k].vid
  /\ \A k \in 1..Len(r.deps) : r.deps[k] < Len(r.vals)
\* what happens to a context that is gone: nothing
GoneIsFrozen == [][\A c \in 1..Len(ctxs) : ~Alive(c) => ctxs'[c] = ctxs[c] /\ ~(\E h \in H : handle'[h] = c)]_view
\* at most one context changes at a time, and it is alive; a refusal changes nothing
OneAtATime == [][\A c, d \in 1..Len(ctxs) : ctxs'[c] # ctxs[c] /\ ctxs'[d] # ctxs[d] => c = d]_view
RefusedIsNothing == [][hist' # hist /\ ~hist'[Len(hist')].ok => UNCHANGED <<ctxs, handle, var>>]_<<ctxs, handle, var, hist>>

\* ---- every transition, with the path to it ----
Obs == [ctxs |-> ctxs', handle |-> handle', alive |-> [c \in 1..Len(ctxs') |-> \E h \in H : handle'[h] = c],
        vals |-> [v \in V |-> var'[v].val]]
Emit == PrintT("@@" \o ToJson([hist |-> hist', obs |-> Obs, plain |-> [v \in V |-> var'[v].c = 0]]))
EmitSome == Len(hist') % 10 = 0 => Emit
=============================================================================

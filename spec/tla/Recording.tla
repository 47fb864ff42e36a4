------------------------------ MODULE Recording ------------------------------
(* Several threads using contexts at once.  An operation of a thread begins,  *)
(* takes one or more atomic steps, and ends; other threads act in between.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ctxs,   \* cid -> recording, for every context ever created
          hc,     \* cid -> number of handles
          var,    \* shared variables: [c, id, val]; c = 0: not recorded
          pend    \* thread -> operation in progress
rvars == <<ctxs, hc, var, pend>>

Empty == [vals |-> <<>>, indeps |-> <<>>, deps |-> <<>>, ops |-> <<>>]
Plain(x) == [c |-> 0, id |-> 0, val |-> x]
Alive(c) == c \in DOMAIN hc /\ hc[c] > 0
NoOut == [ok |-> TRUE, n |-> 0, rec |-> Empty]
NoOp == [k |-> "none"]
Idle == [op |-> NoOp, st |-> "idle", a |-> Plain(0), b |-> Plain(0), r |-> Plain(0), out |-> NoOut]

Push(r, x) == [r EXCEPT !.vals = Append(@, x)]
OpRec(r, code, x, i, j) == [Push(r, x) EXCEPT !.ops = Append(@, [op |-> code, vid |-> Len(r.vals), a |-> i, b |-> j])]

\* an operand: a shared variable, or (0) a plain number
Operand(x, val) == IF x = 0 THEN Plain(val) ELSE var[x]
Begin(th, op) ==
  /\ pend[th].st = "idle"
  /\ pend' = [pend EXCEPT ![th] = [Idle EXCEPT !.op = op, !.st = "start",
                                    !.a = IF "x" \in DOMAIN op THEN Operand(op.x, op.val) ELSE Plain(0),
                                    !.b = IF "y" \in DOMAIN op THEN Operand(op.y, op.val) ELSE Plain(0)]]
  /\ UNCHANGED <<ctxs, hc, var>>

\* ---- atomic steps ----
To(th, st) == [pend EXCEPT ![th].st = st]
Done(th, out, r) == [pend EXCEPT ![th].st = "done", ![th].out = out, ![th].r = r]
Refused == [NoOut EXCEPT !.ok = FALSE]

New(th, c) ==
  /\ c \notin DOMAIN ctxs
  /\ ctxs' = (c :> Empty) @@ ctxs
  /\ hc' = (c :> 1) @@ hc
  /\ pend' = Done(th, [NoOut EXCEPT !.n = c], Plain(0))
  /\ UNCHANGED var
Get(th, c) ==
  /\ hc' = IF Alive(c) THEN [hc EXCEPT ![c] = @ + 1] ELSE hc
  /\ pend' = Done(th, [NoOut EXCEPT !.ok = Alive(c)], Plain(0))
  /\ UNCHANGED <<ctxs, var>>
Drop(th, c) ==
  /\ hc' = [hc EXCEPT ![c] = @ - 1]
  /\ pend' = Done(th, NoOut, Plain(0))
  /\ UNCHANGED <<ctxs, var>>
Indep(th, c) ==
  LET p == pend[th] IN
  /\ ctxs' = [ctxs EXCEPT ![c] = [Push(@, p.op.val) EXCEPT !.indeps = Append(@, Len(ctxs[c].vals))]]
  /\ pend' = Done(th, NoOut, [c |-> c, id |-> Len(ctxs[c].vals), val |-> p.op.val])
  /\ UNCHANGED <<hc, var>>
Dep(th, c) ==
  LET p == pend[th] IN
  /\ UNCHANGED <<hc, var>>
  /\ IF p.a.c \notin {0, c} THEN pend' = Done(th, Refused, Plain(0)) /\ ctxs' = ctxs
     ELSE IF p.a.c = 0
     THEN /\ ctxs' = [ctxs EXCEPT ![c] = OpRec(@, "Const", p.a.val, -1, -1)]
          /\ pend' = [pend EXCEPT ![th].a = [c |-> c, id |-> Len(ctxs[c].vals), val |-> p.a.val]]
     ELSE /\ ctxs' = [ctxs EXCEPT ![c].deps = Append(@, p.a.id)]
          /\ pend' = Done(th, NoOut, Plain(0))
\* reading a whole recording, or a part of it, at one instant
Read(th, c) ==
  LET k == pend[th].op.k  r == ctxs[c]
      rec == CASE k = "tape" -> r
               [] k = "vals" -> [Empty EXCEPT !.vals = r.vals]
               [] k = "ops" -> [Empty EXCEPT !.ops = r.ops]
               [] k = "indeps" -> [Empty EXCEPT !.indeps = r.indeps]
               [] k = "deps" -> [Empty EXCEPT !.deps = r.deps] IN
  /\ pend' = Done(th, [NoOut EXCEPT !.rec = rec], Plain(0))
  /\ UNCHANGED <<ctxs, hc, var>>
Cid(th, c) == pend' = Done(th, [NoOut EXCEPT !.n = c], Plain(0)) /\ UNCHANGED <<ctxs, hc, var>>

\* an operation on variables: find the context (it then stays alive until released), record constants, record itself
Value(p) == IF p.op.k = "un" THEN p.a.val ELSE p.a.val + p.b.val
Home(p) == IF p.a.c # 0 THEN p.a.c ELSE p.b.c
Compute(th) ==
  LET p == pend[th]  c == Home(p)  v == Value(p)  un == p.op.k = "un"
      out == [NoOut EXCEPT !.n = v]
      push(code, x, i, j) == ctxs' = [ctxs EXCEPT ![c] = OpRec(@, code, x, i, j)]
      id == Len(ctxs[c].vals) IN
  /\ UNCHANGED var
  /\ CASE p.st = "start" ->
            /\ ctxs' = ctxs
            /\ IF c = 0 THEN pend' = Done(th, out, Plain(v)) /\ hc' = hc
               ELSE IF p.a.c # 0 /\ p.b.c # 0 /\ p.a.c # p.b.c THEN pend' = Done(th, Refused, Plain(0)) /\ hc' = hc
               ELSE IF Alive(c) THEN hc' = [hc EXCEPT ![c] = @ + 1] /\ pend' = To(th, "found")
               ELSE pend' = Done(th, out, Plain(v)) /\ hc' = hc
       [] p.st = "found" ->
            /\ hc' = hc
            /\ IF p.a.c = 0 THEN push("Const", p.a.val, -1, -1) /\ pend' = [pend EXCEPT ![th].a = [c |-> c, id |-> id, val |-> p.a.val]]
               ELSE IF ~un /\ p.b.c = 0
               THEN push("Const", p.b.val, -1, -1) /\ pend' = [pend EXCEPT ![th].b = [c |-> c, id |-> id, val |-> p.b.val]]
               ELSE /\ push(IF un THEN "Abs" ELSE "Add", v, p.a.id, IF un THEN -1 ELSE p.b.id)
                    /\ pend' = [pend EXCEPT ![th].st = "release", ![th].r = [c |-> c, id |-> id, val |-> v]]
       [] p.st = "release" ->
            /\ ctxs' = ctxs
            /\ hc' = [hc EXCEPT ![c] = @ - 1]
            /\ pend' = Done(th, out, p.r)

Silent(th) ==
  LET p == pend[th]  k == p.op.k IN
  /\ p.st \notin {"idle", "done"}
  /\ CASE k = "new" -> New(th, p.op.c)
       [] k = "get" -> Get(th, p.op.c)
       [] k = "drop" -> Drop(th, p.op.c)
       [] k = "indep" -> Indep(th, p.op.c)
       [] k = "dep" -> Dep(th, p.op.c)
       [] k = "cid" -> Cid(th, p.op.c)
       [] k \in {"tape", "vals", "ops", "indeps", "deps"} -> Read(th, p.op.c)
       [] k \in {"bin", "un"} -> Compute(th)

Writes(op) == op.k \in {"bin", "un", "indep"}
End(th) ==
  LET p == pend[th] IN
  /\ p.st = "done"
  /\ pend' = [pend EXCEPT ![th] = Idle]
  /\ var' = IF Writes(p.op) /\ p.out.ok THEN [var EXCEPT ![p.op.v] = p.r] ELSE var
  /\ UNCHANGED <<ctxs, hc>>

\* ---- what has to hold ----
ClosedRec(r) ==
  /\ Len(r.indeps) + Len(r.ops) = Len(r.vals)
  /\ \A k \in 1..Len(r.indeps) : r.indeps[k] < Len(r.vals)
  /\ \A k \in 1..Len(r.deps) : r.deps[k] < Len(r.vals)
  /\ \A k \in 1..Len(r.ops) : r.ops[k].a < r.ops[k].vid /\ r.ops[k].b < r.ops[k].vid /\ r.ops[k].vid < Len(r.vals)
  /\ \A j, k \in 1..Len(r.ops) : j < k => r.ops[j].vid < r.ops[k].vid
Closed == \A c \in DOMAIN ctxs : ClosedRec(ctxs[c])
SnapshotsClosed == \A th \in DOMAIN pend : pend[th].st = "done" /\ pend[th].op.k = "tape" => ClosedRec(pend[th].out.rec)
IsPrefix(s, u) == Len(s) <= Len(u) /\ SubSeq(u, 1, Len(s)) = s
RecPrefix(r, q) == IsPrefix(r.vals, q.vals) /\ IsPrefix(r.indeps, q.indeps) /\ IsPrefix(r.deps, q.deps) /\ IsPrefix(r.ops, q.ops)
\* a snapshot stays a prefix of the recording
SnapshotsPrefix == \A th \in DOMAIN pend : pend[th].st = "done" /\ pend[th].op.k = "tape" =>
  RecPrefix(pend[th].out.rec, ctxs[pend[th].op.c])
\* recordings only grow
Growing == [][\A c \in DOMAIN ctxs : c \in DOMAIN ctxs' /\ RecPrefix(ctxs[c], ctxs'[c])]_rvars
\* a variable that refers to a context has its value there
VarsMeanIt == \A v \in DOMAIN var : var[v].c # 0 =>
  var[v].id < Len(ctxs[var[v].c].vals) /\ ctxs[var[v].c].vals[var[v].id + 1] = var[v].val
Counts == \A c \in DOMAIN hc : hc[c] >= 0
=============================================================================

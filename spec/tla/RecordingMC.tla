----------------------------- MODULE RecordingMC -----------------------------
(* Recording.tla with small programs: every assignment of operations to       *)
(* threads from an alphabet, every interleaving of their atomic steps.        *)
EXTENDS Recording
CONSTANTS Threads, Steps, Alphabet
VARIABLES left, log
mvars == <<rvars, left, log>>
\* contexts 1 and 2 exist, each with an independent in variables 1 and 2; context 1 has one handle, context 2 has two;
\* variable 3 is plain
Alphabets == [
  record |-> {[k |-> "bin", x |-> 1, y |-> 0, v |-> 3, val |-> 5], [k |-> "bin", x |-> 0, y |-> 1, v |-> 3, val |-> 7],
              [k |-> "bin", x |-> 1, y |-> 3, v |-> 3, val |-> 0], [k |-> "dep", c |-> 1, x |-> 3, val |-> 0],
              [k |-> "tape", c |-> 1], [k |-> "un", x |-> 3, v |-> 3, val |-> 0]},
  mix |-> {[k |-> "bin", x |-> 1, y |-> 2, v |-> 3, val |-> 0], [k |-> "dep", c |-> 2, x |-> 1, val |-> 0],
           [k |-> "bin", x |-> 2, y |-> 0, v |-> 1, val |-> 3], [k |-> "indep", c |-> 1, v |-> 2, val |-> 4],
           [k |-> "tape", c |-> 2]},
  life |-> {[k |-> "get", c |-> 1], [k |-> "drop", c |-> 1], [k |-> "bin", x |-> 1, y |-> 0, v |-> 1, val |-> 3],
            [k |-> "new", c |-> 3], [k |-> "get", c |-> 3]}]
Ops == Alphabets[Alphabet]
MInit ==
  /\ ctxs = (1 :> [Empty EXCEPT !.vals = <<10>>, !.indeps = <<0>>]) @@ (2 :> [Empty EXCEPT !.vals = <<20>>, !.indeps = <<0>>])
  /\ hc = (1 :> 1) @@ (2 :> 2)
  /\ var = <<[c |-> 1, id |-> 0, val |-> 10], [c |-> 2, id |-> 0, val |-> 20], Plain(30)>>
  /\ pend = [t \in 1..Threads |-> Idle]
  /\ left = [t \in 1..Threads |-> Steps]
  /\ log = {}
Small(x) == x < 200
\* the caller owns a handle of every context it uses; dropping needs one nobody else is using
Using(st, k) == Cardinality({t \in 1..Threads : pend[t].op.k \in k /\ pend[t].st \in st})
Owned(op) == CASE op.k = "drop" -> hc[1] > Using({"found", "release"}, {"bin", "un"}) + Using({"start"}, {"drop"})
               [] op.k = "new" -> op.c \notin DOMAIN ctxs /\ Using({"start"}, {"new"}) = 0
               [] OTHER -> TRUE
MNext == \E th \in 1..Threads :
  \/ /\ left[th] > 0 /\ left' = [left EXCEPT ![th] = @ - 1] /\ log' = log
     /\ \E op \in Ops : Owned(op) /\ Begin(th, op)
  \/ Silent(th) /\ UNCHANGED <<left, log>>
  \/ /\ End(th) /\ left' = left
     \* every completed operation, with what it has to have left behind
     /\ log' = IF pend[th].op.k \in {"bin", "un"} /\ pend[th].r.c # 0 /\ pend[th].out.ok
               THEN log \cup {[th |-> th, n |-> left[th], c |-> pend[th].r.c, id |-> pend[th].r.id, val |-> pend[th].out.n,
                               a |-> pend[th].a.id, b |-> IF pend[th].op.k = "un" THEN -1 ELSE pend[th].b.id]}
               ELSE log
MSpec == MInit /\ [][MNext]_mvars
\* exactly once, with its own operands and value
ExactlyOnce == \A e \in log : LET r == ctxs[e.c] IN
  /\ r.vals[e.id + 1] = e.val
  /\ Cardinality({k \in 1..Len(r.ops) : r.ops[k].vid = e.id}) = 1
  /\ \E k \in 1..Len(r.ops) : r.ops[k].vid = e.id /\ r.ops[k].a = e.a /\ r.ops[k].b = e.b
DistinctIds == \A e, f \in log : e # f /\ e.c = f.c => e.id # f.id
\* in the order of each thread's program
ProgramOrder == \A e, f \in log : e.th = f.th /\ e.c = f.c /\ e.n > f.n => e.id < f.id
AllBounded == \A v \in DOMAIN var : var[v].val < 400
NeverStuck == \A th \in 1..Threads : pend[th].st \notin {"idle", "done"} => ENABLED Silent(th)
=============================================================================

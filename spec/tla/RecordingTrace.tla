---------------------------- MODULE RecordingTrace ----------------------------
(* Histories recorded from the real library: is there an order of atomic      *)
(* steps, each between the beginning and the end of its operation, that       *)
(* explains everything that was returned?                                     *)
EXTENDS Recording, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t,   \* which history
          l    \* next event
tvars == <<rvars, t, l>>
Tr == Traces[t]
AsFun(pairs) == [c \in {pairs[k][1] : k \in 1..Len(pairs)} |-> (CHOOSE k \in 1..Len(pairs) : pairs[k][1] = c)]
TInit ==
  /\ t \in 1..Len(Traces) /\ l = 1
  /\ LET ix == AsFun(Traces[t].ctxs) IN
       /\ ctxs = [c \in DOMAIN ix |-> Traces[t].ctxs[ix[c]][2]]
       /\ hc = [c \in DOMAIN ix |-> Traces[t].ctxs[ix[c]][3]]
  /\ var = Traces[t].var
  /\ pend = [th \in 1..Traces[t].threads |-> Idle]
Event == Tr.evs[l]
OpOf(k) == Tr.ops[k]
\* a finished operation has to return what it really returned
Explained(th) == pend'[th].st = "done" => pend'[th].out = pend[th].op.res
\* a beginning changes nothing a silent step looks at: silent steps only need to be considered right before some end
\* recordings only grow, so what was finally found in a context says in which order things were recorded
Expected == \A k \in 1..Len(Tr.final) : LET c == Tr.final[k][1] IN
  c \in DOMAIN ctxs' /\ (c \notin DOMAIN ctxs \/ ctxs'[c] # ctxs[c]) => RecPrefix(ctxs'[c], Tr.final[k][2])
TNext ==
  \/ /\ l <= Len(Tr.evs) /\ l' = l + 1 /\ t' = t
     /\ LET op == OpOf(Event[2]) IN
        IF Event[1] = 0 THEN Begin(op.t, op) ELSE End(op.t)
  \/ /\ l <= Len(Tr.evs) /\ Event[1] = 1 /\ UNCHANGED <<t, l>>
     /\ \E th \in DOMAIN pend : Silent(th) /\ Explained(th) /\ Expected
TSpec == TInit /\ [][TNext]_tvars
\* printed when a history is explained to its end
Accepted == l = Len(Tr.evs) + 1 => PrintT("@@done " \o ToString(t))
\* how far the histories get, for the report
Snap == Closed /\ VarsMeanIt
=============================================================================

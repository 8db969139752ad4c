---------------------------- MODULE PersistTrace ----------------------------
(* Are recorded histories of models that are copied behaviours of Persist?    *)
EXTENDS Persist, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.VERIF_TRACE))
VARIABLES l, ss
vars == <<l, ss>>

Empty == [t \in {"A", "B", "C"} |-> None]
Init == l = 1 /\ ss = Empty
Report(i, c) == PrintT("VERDICT " \o ToJson([line |-> i, op |-> Trace[i].op, clause |-> c]))
\* after a difference in the parameter values, go on from the observed ones
Resync(s, e) == IF e.err = "" /\ "vals" \in DOMAIN e.obs
                THEN IF DOMAIN e.obs.vals \subseteq DOMAIN s.V /\ ~ValsOk(s, e.obs) THEN [s EXCEPT !.V = Upd(@, e.obs.vals)] ELSE s
                ELSE s
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         s0 == IF e.op = "new" /\ e.first THEN Empty ELSE ss
         s2 == TLCEval(Step(s0, e))
         js == TLCEval(JudgeStep(s0, s2, e))
         x == IF e.op = "clone" THEN e.to ELSE e.slot
     IN /\ ss' = IF s2[x].on THEN [s2 EXCEPT ![x].m = Resync(@, e)] ELSE s2
        /\ \A i \in 1..Len(js) : IF js[i][2] THEN TRUE ELSE Report(l, js[i][1])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-CONSUMED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK")
=============================================================================

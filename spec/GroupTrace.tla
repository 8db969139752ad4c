----------------------------- MODULE GroupTrace -----------------------------
(* Is a recorded history of a real group of models a behaviour of Group?       *)
EXTENDS Group, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.VERIF_TRACE))
VARIABLES l, st
vars == <<l, st>>

Nil == [M |-> <<>>]
Init == l = 1 /\ st = Nil
Report(i, c) == PrintT("VERDICT " \o ToJson([line |-> i, op |-> Trace[i].op, clause |-> c]))
\* after a difference in the parameter values, go on from the observed ones
Resync(g, e) == IF "vals" \in DOMAIN e.obs /\ DOMAIN e.obs.vals = DOMAIN g.V /\ ~GVals(g, e.obs)
                THEN [g EXCEPT !.V = Upd(@, e.obs.vals)] ELSE g
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         s2 == TLCEval(ApplyG(st, e))
         js == TLCEval(JudgeG(s2, e))
     IN /\ st' = Resync(s2, e)
        /\ \A i \in 1..Len(js) : IF js[i][2] THEN TRUE ELSE Report(l, js[i][1])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-CONSUMED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK")
=============================================================================

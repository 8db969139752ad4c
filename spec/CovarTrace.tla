--------------------------- MODULE CovarTrace ---------------------------
(* Is a recorded history of a real model a behaviour of Covar?  One event *)
(* is consumed in every step; violated clauses are printed and the check goes  *)
(* on with the next event, so that a verdict is always reached.                *)
EXTENDS Covar, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.VERIF_TRACE))
VARIABLES l, st
vars == <<l, st>>

Nil == [S |-> <<>>]
Init == l = 1 /\ st = Nil
Report(i, c) == PrintT("VERDICT " \o ToJson([line |-> i, op |-> Trace[i].op, clause |-> c]))
\* after a difference in the parameter values, go on from the observed ones
Resync(s, e) == IF e.err = "" /\ "vals" \in DOMAIN e.obs
                THEN IF DOMAIN e.obs.vals \subseteq DOMAIN s.V /\ ~ValsOk(s, e.obs) THEN [s EXCEPT !.V = Upd(@, e.obs.vals)] ELSE s
                ELSE s
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         s2 == TLCEval(ApplyC(st, e))
         js == TLCEval(JudgeC(s2, e))
     IN /\ st' = Resync(s2, e)
        /\ \A i \in 1..Len(js) : IF js[i][2] THEN TRUE ELSE Report(l, js[i][1])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-CONSUMED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK")
=============================================================================

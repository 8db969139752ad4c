------------------------------ MODULE CodesTrace ------------------------------
(* Is a recorded history a behaviour of Codes?                                *)
EXTENDS Codes, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.VERIF_TRACE))
VARIABLES l, st
vars == <<l, st>>

Init == l = 1 /\ st = St0
Report(i, c) == PrintT("VERDICT " \o ToJson([line |-> i, op |-> Trace[i].op, clause |-> c]))
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         s0 == IF l > 1 /\ Trace[l - 1]["b"] # e["b"] THEN St0 ELSE st
         s2 == TLCEval(Apply(s0, e))
         js == TLCEval(Judge(s2, e))
     IN /\ st' = s2
        /\ \A i \in 1..Len(js) : IF js[i][2] THEN TRUE ELSE Report(l, js[i][1])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-CONSUMED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK")
=============================================================================

----------------------------- MODULE FramesTrace -----------------------------
(* Is a recorded history of real data collections a behaviour of Frames? *)
EXTENDS Frames, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.VERIF_TRACE))
VARIABLES l, st
vars == <<l, st>>
Init == l = 1 /\ st = NilF
Report(i, c) == PrintT("VERDICT " \o ToJson([line |-> i, op |-> Trace[i].op, clause |-> c]))
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         s2 == TLCEval(Apply(st, e))
         js == TLCEval(Judge(s2, e))
     IN /\ st' = s2
        /\ \A i \in 1..Len(js) : IF js[i][2] THEN TRUE ELSE Report(l, js[i][1])
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE-CONSUMED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK")
=============================================================================

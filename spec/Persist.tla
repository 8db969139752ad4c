------------------------------ MODULE Persist ------------------------------
(***************************************************************************)
(* Several model objects, copied, saved and loaded from one another, that go  *)
(* on living apart.  The state has a slot for each: [on, dat, m, fp] with m   *)
(* the state of Lifecycle, dat whether it has data, and fp what it looked     *)
(* like (text of every field) when it was last looked at, if nothing has been *)
(* done to it since ("" otherwise).                                           *)
(* Events of Lifecycle carry the slot t they happen to.  A copy has the same  *)
(* specification, parameters, constraints, graph and settings as its          *)
(* original; whatever happens to one of them does not touch any other.        *)
(***************************************************************************)
EXTENDS Lifecycle

None == [on |-> FALSE, dat |-> FALSE, m |-> [S |-> <<>>], fp |-> <<>>]
\* the ways of copying that also bring the data
Brings(e) == e.how \in {"init"}

Step(ss, e) ==
  IF e.op # "new" /\ ~ss[e.slot].on THEN ss       \* nothing is there (an earlier copy failed)
  ELSE CASE e.op = "new" -> [ss EXCEPT ![e.slot] = [on |-> TRUE, dat |-> TRUE, m |-> Apply(None.m, e), fp |-> <<>>]]
    [] e.op = "clone" ->
         LET a == ss[e.slot] IN
         IF e.err # "" THEN [ss EXCEPT ![e.to] = None]
         ELSE [ss EXCEPT ![e.to] = [a EXCEPT !.dat = a.dat /\ Brings(e), !.m.ev = <<>>, !.fp = <<>>]]
    [] e.op = "look" -> IF "fp" \in DOMAIN e.obs THEN [ss EXCEPT ![e.slot].fp = <<e.obs.fp>>] ELSE ss
    [] e.op = "data" -> [ss EXCEPT ![e.slot].m = Apply(@, e), ![e.slot].dat = TRUE, ![e.slot].fp = <<>>]
    [] e.op = "dress" -> [ss EXCEPT ![e.slot].fp = <<>>]
    [] OTHER -> [ss EXCEPT ![e.slot].m = Apply(@, e), ![e.slot].fp = <<>>]

Fields == <<"title", "frame", "ca", "co", "quantity", "scale", "nodes", "edges", "roles", "constraints", "order">>

\* the clauses of one event: before, after, event
JudgeStep(ss, s2, e) ==
  IF e.op # "new" /\ ~ss[e.slot].on THEN <<>>
  ELSE IF e.err # "" THEN <<<<e.op \o " works", FALSE>>>>
  ELSE CASE e.op = "clone" -> [i \in 1..Len(Fields) |-> <<"copy has the same " \o Fields[i], e.obs.now[Fields[i]] = e.obs.was[Fields[i]]>>]
              \o << <<"parameter values of the copy", ValsOk(s2[e.to].m, e.obs)>>,
                    <<"parameter names of the copy", SpecNames(s2[e.to].m.S) \subseteq DOMAIN e.obs.vals>>,
                    <<"copying changes nothing in the original", e.obs.was = e.obs.before>> >>
         [] e.op = "look" -> LET was == ss[e.slot].fp
                             IN << <<"untouched while others changed", was = <<>> \/ was[1] = e.obs.fp>>,
                                   <<"parameter values", ValsOk(s2[e.slot].m, e.obs)>> >>
         [] e.op = "dress" -> <<>>
         [] OTHER -> Judge(s2[e.slot].m, e)
=============================================================================

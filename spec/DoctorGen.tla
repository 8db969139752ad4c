------------------------------ MODULE DoctorGen ------------------------------
(* Histories of data with faults, checks and repairs, and what models make of them. *)
EXTENDS Doctor, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st, dirty
vars == <<seed, hist, st, dirty>>

G(s) == [maxalt |-> 4, maxcase |-> 6, maxnest |-> Pick(s, 99, <<0, 0, 1>>), q |-> 60, multi |-> 0, multin |-> 0,
      sharemu |-> 0, frac |-> 30, wt |-> 65, zq |-> 40, av |-> 75]
NoX == [p \in {} |-> 0]
Data(s, S) ==
  LET D == TLCEval(GenData(G(s), s, S))
      lvl == Pick(s, 1230, <<0, 1, 1, 1, 2>>)              \* how faulty
      F(k, pct) == Coin(s, 4000 + k, pct * lvl)
      chf(c, a) == IF F(c, 10) THEN 0
                   ELSE IF D.av[c][a] = 0 THEN (IF F(100 + 10 * c + a, 15) THEN Pick(s, 5000 + 10 * c + a, <<One, 500000>>) ELSE 0)
                   ELSE IF NoSize(S, D, c, a) /\ F(200 + 10 * c + a, 25) THEN One
                   ELSE D.ch[c][a]
      \* a column that never changes
      flat(k) == F(300 + k, 15)
  IN [D EXCEPT !.ch = TLCEval([c \in 1..D.n |-> TLCEval([a \in 1..NAlt(S) |-> chf(c, a)])]),
               !.wt = TLCEval([c \in 1..D.n |-> IF ~D.haswt THEN One ELSE IF F(400 + c, 10) THEN NaN ELSE IF Coin(s, 4500 + c, 10) THEN 0 ELSE D.wt[c]]),
               !.co = TLCEval([c \in 1..D.n |-> TLCEval([k \in 1..NCo(D) |-> IF F(500 + 10 * c + k, 6) THEN NaN ELSE IF flat(k) THEN D.co[1][k] ELSE D.co[c][k]])])]
NewOp(s) ==
  LET S == TLCEval(GenSpec(G(Sub(s, 1)), Sub(s, 1)))
      D == TLCEval(Data(Sub(s, 2), S))
  IN [op |-> "new", S |-> S, D |-> D, V |-> TLCEval(GenVals(Sub(s, 3), SpecNames(S))), H |-> <<>>, threads |-> Pick(s, 5, <<1, 2, 4>>), track |-> Coin(s, 6, 60)]

How(s, fix) == LET y(k, m) == IF Coin(s, k, fix) THEN Pick(s, k + 10, m) ELSE "" IN
  [czq |-> y(1, <<"-">>), cav |-> y(2, <<"+", "-">>), noch |-> y(3, <<"-", "*">>), nanw |-> y(4, <<"y">>), nanco |-> y(5, <<"y">>), lowvar |-> ""]
CheckOp(g, s) ==
  LET on == Pick(s, 1, <<"doctor", "doctor", "doctor", "model", "dfs", "dfs">>)
      w == IF on = "doctor" THEN "all" ELSE Pick(s, 2, Checks \o <<"all", "all">>)
      no == IF on = "dfs" /\ Coin(s, 3, 30) THEN Pick(s, 4, <<"av", "ch", "wt", "co", "ca">>) ELSE ""
      e0 == [op |-> "check", on |-> on, which |-> w, no |-> no, how |-> How(Sub(s, 5), Pick(s, 6, <<0, 40, 80>>)), verbose |-> Pick(s, 7, <<1, 2, 3, 3, 50>>)]
      e1 == [e0 EXCEPT !.how.noch = IF @ = "*" THEN "-" ELSE @]
      D2 == TLCEval(IF w = "all" THEN Before(g.S, g.D, e1, 4) ELSE IF w = "noch" THEN Repaired(g.S, g.D, w, "-") ELSE g.D)
      fine == no = "" /\ (\A c \in 1..D2.n : D2.wt[c] # NaN) /\ Scalable(D2)
  IN IF e0.how.noch = "*" /\ ~fine THEN e1 ELSE e0
RepairOp(g, s) == LET e == CheckOp(g, s) IN [e EXCEPT !.on = "doctor", !.which = "all", !.no = "", !.how = [How(Sub(s, 15), 100) EXCEPT !.noch = "-"]]

RndVals(s, names, pct) ==
  LET ns == {p \in names : Coin(s, 600 + NameIx(p), pct)}
  IN [p \in ns |-> GenVal(Sub(s, 700 + NameIx(p)), p)]
EvalOp(g, s) == [op |-> "eval", via |-> Pick(s, 1, <<"loglike", "loglike2", "d_loglike", "probability_df", "loglike">>),
      start |-> 0, stop |-> -1, step |-> 1, leave |-> -1, keep |-> -1, sub |-> -1, x |-> NoX, xhow |-> "dict"]
StatOp(g, s) == [op |-> "stat", which |-> Pick(s, 1, <<"null", "nil", "null", "nil", "rho_null", "best">>), x |-> NoX, xhow |-> "dict"]
GenOp(g, s) ==
  LET w == Rnd(s, 1, 24)
      fine == Fine(g.S, g.D)
  IN IF w < 12 THEN CheckOp(g, Sub(s, 2))
     ELSE IF w < 18 THEN IF ~fine THEN RepairOp(g, Sub(s, 2))
                         ELSE IF dirty \/ ~g.track \/ ~Scalable(g.D) \/ Coin(s, 3, 50) THEN EvalOp(g, Sub(s, 4)) ELSE StatOp(g, Sub(s, 4))
     ELSE IF w < 20 THEN [op |-> "set", how |-> Pick(s, 5, <<"kw", "dict", "vec", "value">>), v |-> RndVals(Sub(s, 2), SpecNames(g.S), 60)]
     ELSE IF w < 23 \/ ~fine THEN [op |-> "data", D |-> Data(Sub(s, 7), g.S)]
     ELSE GenEdit(g.S, Sub(s, 8)) @@ [look |-> TRUE]

Nil == [S |-> [alts |-> <<>>, nests |-> <<>>], D |-> [n |-> 0], V |-> NoX, H |-> {}]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = Nil /\ dirty = FALSE
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist))))
               s2 == TLCEval(ApplyD(st, e))
           IN /\ hist' = Append(hist, e) /\ st' = s2
              \* (a model cannot know of repairs behind its back)
              /\ dirty' = IF e.op = "check" THEN dirty \/ (e.on # "doctor" /\ s2.D # st.D) ELSE IF e.op \in {"data", "edit"} THEN FALSE ELSE dirty
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a repair removes the faults it is for, and every repair can be done again without effect
Everything == [op |-> "check", on |-> "doctor", which |-> "all", no |-> "", verbose |-> 3,
               how |-> [czq |-> "-", cav |-> "-", noch |-> "-", nanw |-> "y", nanco |-> "y", lowvar |-> ""]]
LawRepair == hist # <<>> => LET D2 == TLCEval(After(st, Everything)) IN
   /\ Fine(st.S, D2) /\ \A c \in 1..D2.n : ~Noch(st.S, D2)[c]
   /\ After([st EXCEPT !.D = D2], Everything) = D2
=============================================================================

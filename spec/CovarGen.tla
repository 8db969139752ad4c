------------------------------ MODULE CovarGen ------------------------------
(* Histories in which models are asked for the covariance of their parameters. *)
EXTENDS Covar, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

G == [maxalt |-> 4, maxcase |-> 7, maxnest |-> 1, q |-> 20, multi |-> 0, multin |-> 0,
      sharemu |-> 0, frac |-> 15, wt |-> 40, zq |-> 0, av |-> 85]
NoX == [p \in {} |-> 0]
Data(s, S) == LET D == GenData([G EXCEPT !.maxcase = 5], s, S)
                  D2 == GenData(G, s, S)
              IN IF D2.n < 5 THEN GenData([G EXCEPT !.maxcase = 8], Sub(s, 77), S) ELSE D2
NewOp(s) ==
  LET S == TLCEval(GenSpec(G, Sub(s, 1)))
      D == TLCEval(Data(Sub(s, 2), S))
      V == TLCEval(GenVals(Sub(s, 3), SpecNames(S)))
      Hf == IF Coin(s, 4, 70) THEN <<>> ELSE SelectSeq(NamesSeq(S), LAMBDA p : Coin(s, 500 + NameIx(p), 25))
  IN [op |-> "new", S |-> S, D |-> D, V |-> V, H |-> Hf, threads |-> Pick(s, 5, <<1, 2, 4>>), track |-> FALSE]

\* limits at the present values of some parameters, and away from others
BoundOp(g, s) ==
  LET ns == {p \in SpecNames(g.S) : p \notin g.H /\ Coin(s, 500 + NameIx(p), 40)}
      B(p) == LET v == g.V[p]  w == Rnd(s, 90 + NameIx(p), 6) IN
              IF p \in ScaleNames
              THEN (CASE w = 0 -> <<v, Max2(One, v)>> [] w = 1 -> <<1000, v>> [] OTHER -> <<1000, Max2(One, v + 500000)>>)
              ELSE CASE w = 0 -> <<v, v + One>> [] w = 1 -> <<v - One, v>> [] w = 2 -> <<v, Wide>> [] w = 3 -> <<-Wide, v>>
                     [] w = 4 -> <<v - One, v + 2 * One>> [] OTHER -> <<-Wide, Wide>>
  IN [op |-> "bound", v |-> [p \in ns |-> B(p)]]
ConsOp(g, s) ==
  LET ns == SelectSeq(AllNames, LAMBDA p : p \in SpecNames(g.S) /\ p \notin ScaleNames /\ p \notin SizeNames)
      a == Rnd(s, 1, Len(ns))
      b == Rnd(s, 2, Len(ns) - 1)
  IN IF Len(ns) < 2 \/ Coin(s, 3, 30) THEN [op |-> "cons", c |-> <<>>]
     ELSE [op |-> "cons", c |-> <<[p |-> ns[a + 1], q |-> ns[((a + 1 + b) % Len(ns)) + 1]]>>]
\* values that meet an ordering exactly
TieOp(g, s) == IF g.cons = <<>> THEN BoundOp(g, s)
               ELSE [op |-> "set", how |-> "value", v |-> (g.cons[1].p :> g.V[g.cons[1].q])]
RndVals(s, names, pct) ==
  LET ns == {p \in names : Coin(s, 600 + NameIx(p), pct)}
  IN [p \in ns |-> GenVal(Sub(s, 700 + NameIx(p)), p)]

GenOp(g, s) ==
  LET w == Rnd(s, 1, 24)
      ns == SelectSeq(AllNames, LAMBDA p : p \in SpecNames(g.S))
      p1 == Pick(s, 2, ns)
  IN IF ns = <<>> THEN GenEdit(g.S, Sub(s, 8)) @@ [look |-> TRUE]
     ELSE IF w < 9 THEN [op |-> "cov", lr |-> Coin(s, 9, 70), col |-> Rnd(s, 10, 60)]
     ELSE IF w < 12 THEN LET one == Coin(s, 3, 40) IN
          [op |-> "lr", one |-> one, names |-> IF one THEN <<p1>> ELSE IF Coin(s, 4, 50) THEN <<>> ELSE SelectSeq(ns, LAMBDA p : Coin(s, 400 + NameIx(p), 60)) \o <<p1>>,
           hasref |-> Coin(s, 5, 40), ref |-> Pick(s, 6, <<500000, One, 250000>>), held |-> Coin(s, 7, 30)]
     ELSE IF w < 15 THEN BoundOp(g, Sub(s, 8))
     ELSE IF w < 16 THEN ConsOp(g, Sub(s, 8))
     ELSE IF w < 17 THEN TieOp(g, Sub(s, 8))
     ELSE IF w < 19 THEN [op |-> "set", how |-> Pick(s, 1, <<"kw", "dict", "vec", "value">>), v |-> RndVals(Sub(s, 2), SpecNames(g.S), 50)]
     ELSE IF w < 20 THEN [op |-> "nullv", v |-> (p1 :> GenVal(Sub(s, 801), p1))]
     ELSE IF w < 21 THEN [op |-> "lock", v |-> (p1 :> GenVal(Sub(s, 801), p1))]
     ELSE IF w < 22 THEN [op |-> "hold", p |-> p1, on |-> p1 \notin g.H]
     ELSE IF w < 23 THEN [op |-> "data", D |-> Data(Sub(s, 7), g.S)]
     ELSE GenEdit(g.S, Sub(s, 8)) @@ [look |-> TRUE]

Nil == [S |-> [alts |-> <<>>, nests |-> <<>>], D |-> [n |-> 0], V |-> NoX, H |-> {}, L |-> NoX]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = Nil
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist))))
           IN hist' = Append(hist, e) /\ st' = ApplyC(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* held-fast parameters are at a value, limits are a range
LawLimits == hist # <<>> => \A p \in DOMAIN st.L : st.L[p][1] <= st.L[p][2]
=============================================================================

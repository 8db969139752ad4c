------------------------------ MODULE GroupGen ------------------------------
(* Random histories of groups of models.                                       *)
EXTENDS Group, Gen, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

G0 == [maxalt |-> 5, maxcase |-> 6, maxnest |-> 3, q |-> 25, multi |-> 0, multin |-> 0,
       sharemu |-> 0, frac |-> 15, wt |-> 40, zq |-> 10, av |-> 75]

G == [G0 EXCEPT !.maxcase = 2, !.maxalt = 3, !.zq = 0, !.maxnest = 2]

\* members of one group hold the same parameters at the same values
GenHeld(s) == SelectSeq(AllNames, LAMBDA p : Coin(s, 900 + NameIx(p), 8))
HeldVal(s, p) == GenVal(Sub(s, 950 + NameIx(p)), p)
Member(s, root) ==
  LET S == GenSpec(G, Sub(s, 1))
      D == GenData(G, Sub(s, 2), S)
      ns == SpecNames(S)
      V0 == TLCEval(GenVals(Sub(s, 3), ns))
      Hs == SelectSeq(GenHeld(root), LAMBDA p : p \in ns)
  IN [S |-> S, D |-> D, V |-> [p \in ns |-> IF p \in ToSet(Hs) THEN HeldVal(root, p) ELSE V0[p]], H |-> Hs]

NewOp(s) == LET n == Pick(s, 1, <<1, 2, 2, 3>>)
            IN [op |-> "gnew", M |-> [i \in 1..n |-> Member(Sub(s, 10 + i), s)]]

RndVals(s, names, pct) ==
  LET ns == {p \in names : Coin(s, 600 + NameIx(p), pct)}
  IN [p \in ns |-> GenVal(Sub(s, 700 + NameIx(p)), p)]
GenOp(g0, s, root) ==
  LET g == Import(g0)
      w == Rnd(s, 1, 24)
      n == Len(g0.M)
      ns == SelectSeq(AllNames, LAMBDA p : p \in DOMAIN g.V)
      p1 == Pick(s, 2, ns)
      Bnd(p) == IF p \in ScaleNames THEN <<Pick(s, 20 + NameIx(p), <<200000, 250000, 300000>>), One>>
                ELSE <<0 - Pick(s, 20 + NameIx(p), <<One, 2 * One, 3500000>>), Pick(s, 60 + NameIx(p), <<1300000, 2 * One, 4 * One>>)>>
      free == {p \in DOMAIN g.V : p \notin g.H /\ g.L[p][2] > 20 * One}
      hf == {p \in DOMAIN g.V : p \notin g.H /\ Coin(s, 400 + NameIx(p), 60)}
  IN IF ns = <<>> THEN [op |-> "gapp", m |-> Member(Sub(s, 3), root)]
     ELSE IF w < 3 THEN [op |-> "set", how |-> Pick(s, 1, <<"kw", "dict", "vec", "value", "null">>), v |-> RndVals(Sub(s, 2), DOMAIN g.V, 60)]
     ELSE IF w < 4 /\ n < 3 THEN [op |-> "gapp", m |-> Member(Sub(s, 3), root)]
     ELSE IF w < 5 /\ n < 3 THEN [op |-> "gins", k |-> 1 + Rnd(s, 4, n + 1), m |-> Member(Sub(s, 3), root)]
     ELSE IF w < 6 THEN [op |-> "gput", k |-> 1 + Rnd(s, 4, n), m |-> Member(Sub(s, 3), root)]
     ELSE IF w < 7 /\ n > 1 THEN [op |-> "gdel", k |-> 1 + Rnd(s, 4, n)]
     ELSE IF w < 9 THEN LET k == 1 + Rnd(s, 4, n)
                        IN [op |-> "mset", k |-> k, v |-> RndVals(Sub(s, 2), {p \in SpecNames(g0.M[k].S) : p \notin g0.M[k].H}, 60)]
     ELSE IF w < 10 THEN LET k == 1 + Rnd(s, 4, n) IN [op |-> "mdata", k |-> k, D |-> GenData(G, Sub(s, 7), g0.M[k].S)]
     ELSE IF w < 11 THEN [op |-> "nullv", v |-> (p1 :> GenVal(Sub(s, 801), p1))]
     ELSE IF w < 12 THEN [op |-> "lock", v |-> (p1 :> GenVal(Sub(s, 801), p1))]
     ELSE IF w < 13 THEN [op |-> "hold", p |-> p1, on |-> p1 \notin g.H]
     ELSE IF w < 15 THEN [op |-> "stat", which |-> Pick(s, 5, <<"null", "best">>)]
     ELSE IF w < 17 THEN
        IF free # {} THEN IF Coin(s, 7, 50) THEN [op |-> "cap", c |-> Pick(s, 7, <<5 * One, 8 * One, 10 * One>>)]
                          ELSE [op |-> "bound", v |-> [p \in hf |-> Bnd(p)]]
        ELSE [op |-> "est", method |-> Pick(s, 8, <<"default", "slsqp", "l-bfgs-b">>), maxiter |-> Pick(s, 6, <<1, 2, 4, 8, 30>>)]
     ELSE [op |-> "geval", via |-> Pick(s, 9, <<"loglike", "loglike", "loglike2", "d_loglike", "neg_loglike", "parts">>),
           x |-> IF Coin(s, 4, 35) THEN RndVals(Sub(s, 5), DOMAIN g.V, 50) ELSE [p \in {} |-> 0]]

Nil == [M |-> <<>>, V |-> [p \in {} |-> 0], N |-> [p \in {} |-> 0], L |-> [p \in {} |-> <<0, 0>>], H |-> {}, W |-> [p \in {} |-> 0], ev |-> <<>>]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = Nil
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist)), seed))
           IN hist' = Append(hist, e) /\ st' = ApplyG(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the group knows every parameter of its members, and has one value for each
LawKnows == hist # <<>> => GNames(Import(st).M) \subseteq DOMAIN Import(st).V
=============================================================================

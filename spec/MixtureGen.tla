----------------------------- MODULE MixtureGen -----------------------------
(* Random histories of latent class models.                                    *)
EXTENDS Mixture, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

G == [maxalt |-> 4, maxcase |-> 3, maxnest |-> 2, q |-> 15, multi |-> 5, multin |-> 0,
      sharemu |-> 0, frac |-> 25, wt |-> 45, zq |-> 0, av |-> 75]
GM == [G EXCEPT !.maxnest = 0, !.q = 0]

NoX == [p \in {} |-> 0]
NewOp(s) ==
  LET alts == DistinctCodes(Sub(s, 4), 2 + Rnd(s, 5, G.maxalt - 1))
      nk == Pick(s, 1, <<1, 2, 2, 2, 3>>)
      K == TLCEval([k \in 1..nk |-> GenSpecFor(G, Sub(s, 10 + k), alts)])
      M0 == GenSpecFor(GM, Sub(s, 20), [k \in 1..nk |-> k])
      M == TLCEval([M0 EXCEPT !.ca = <<>>, !.nests = <<[code |-> 0, p |-> "", ch |-> [k \in 1..nk |-> k]]>>])
      D == TLCEval(GenData(G, Sub(s, 2), K[1]))
      names == UNION {SpecNames(K[k]) : k \in 1..nk} \cup SpecNames(M)
  IN [op |-> "xnew", K |-> K, M |-> M, D |-> D, V |-> GenVals(Sub(s, 3), names), turn |-> Rnd(s, 6, nk), late |-> Coin(s, 7, 40)]

RndVals(s, names, pct) ==
  LET ns == {p \in names : Coin(s, 600 + NameIx(p), pct)}
  IN [p \in ns |-> GenVal(Sub(s, 700 + NameIx(p)), p)]
SliceArgs(s, n) ==
  LET a == IF Coin(s, 1, 60) THEN Rnd(s, 2, n) ELSE 0
      z == IF Coin(s, 3, 50) THEN a + 1 + Rnd(s, 4, n - a) ELSE -1
      t == IF Coin(s, 5, 40) THEN 1 + Rnd(s, 6, 3) ELSE 1
  IN <<a, z, t>>
Vias == <<"loglike", "loglike", "loglike2", "loglike2_bhhh", "d_loglike", "bhhh", "neg_loglike", "p", "p_df", "pm", "dp", "classes">>
Sliceable == {"loglike", "loglike2", "loglike2_bhhh", "d_loglike", "p", "p_df", "pm", "dp"}

GenOp(g, s) ==
  LET w == Rnd(s, 1, 26)
      nk == Len(g.K)
      ns == SelectSeq(AllNames, LAMBDA p : p \in XNames(g))
      p1 == Pick(s, 2, ns)
      k0 == Rnd(s, 4, nk + 1)
      spec(k) == IF k = 0 THEN g.M ELSE g.K[k]
      via == Pick(s, 9, Vias)
      sl == IF via \in Sliceable /\ g.D.n > 1 /\ Coin(s, 10, 35) THEN SliceArgs(Sub(s, 11), g.D.n) ELSE <<0, -1, 1>>
  IN IF ns = <<>> \/ w < 4 THEN LET ed == IF k0 = 0 THEN CoEdit(g.M, Sub(s, 8)) ELSE GenEdit(g.K[k0], Sub(s, 8))
                                IN [ed EXCEPT !.op = "kedit"] @@ [cls |-> k0]
     ELSE IF w < 8 THEN [op |-> "set", how |-> Pick(s, 1, <<"kw", "dict", "vec", "value", "value", "null">>), v |-> RndVals(Sub(s, 2), XNames(g), 60)]
     ELSE IF w < 10 THEN [op |-> "kset", k |-> k0, v |-> RndVals(Sub(s, 2), {p \in SpecNames(spec(k0)) : p \notin g.H}, 60)]
     ELSE IF w < 11 THEN [op |-> "data", D |-> GenData(G, Sub(s, 7), g.K[1])]
     ELSE IF w < 12 THEN [op |-> "nullv", v |-> (p1 :> GenVal(Sub(s, 801), p1))]
     ELSE IF w < 13 THEN [op |-> "lock", v |-> (p1 :> GenVal(Sub(s, 801), p1))]
     ELSE IF w < 14 THEN [op |-> "hold", p |-> p1, on |-> p1 \notin g.H]
     ELSE IF w < 16 THEN [op |-> "stat", which |-> Pick(s, 5, <<"null", "best">>)]
     ELSE IF w < 17 THEN [op |-> "est", method |-> Pick(s, 8, <<"default", "bhhh", "slsqp">>), maxiter |-> Pick(s, 6, <<1, 2, 4>>)]
     ELSE [op |-> "xeval", via |-> via, start |-> sl[1], stop |-> sl[2], step |-> sl[3], leave |-> -1, keep |-> -1, sub |-> -1,
           x |-> IF via # "classes" /\ Coin(s, 4, 35) THEN RndVals(Sub(s, 5), XNames(g), 50) ELSE NoX]

Nil == [K |-> <<>>, D |-> [n |-> 0], V |-> NoX]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = Nil
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist))))
           IN hist' = Append(hist, e) /\ st' = ApplyX(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the membership probabilities add up to one, and so do those of the mixture
LawMix == hist # <<>> /\ Moderate(st.V) =>
  LET Rs == TLCEval(XAll(st, st.V, <<>>))
  IN \A c \in 1..st.D.n : /\ Close(SumSeq(Rs[c].pm), One, 50)
                          /\ Close(SumSeq(Rs[c].p), One, 100)
=============================================================================

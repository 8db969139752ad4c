----------------------------- MODULE PersistGen -----------------------------
(* Histories of models that are copied, saved and loaded, and edited apart.   *)
EXTENDS Persist, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, ss
vars == <<seed, hist, ss>>

G == [maxalt |-> 4, maxcase |-> 3, maxnest |-> 3, q |-> 25, multi |-> 0, multin |-> 0,
      sharemu |-> 10, frac |-> 15, wt |-> 40, zq |-> 0, av |-> 75]
Slots == <<"A", "B", "C">>
Vias == <<"loglike", "loglike", "loglike2", "utility", "probability_df", "d_loglike", "probability_nests", "bhhh">>
Ways == <<"pickle", "copy", "deepcopy", "dumps", "init", "shallow", "file", "copy", "init", "xlsx">>
NoX == [p \in {} |-> 0]
NewOp(s, t, f) ==
  LET S == TLCEval(GenSpec(G, Sub(s, 1)))
      D == TLCEval(GenData(G, Sub(s, 2), S))
      V == TLCEval(GenVals(Sub(s, 3), SpecNames(S)))
      Hf == IF Coin(s, 4, 60) THEN <<>> ELSE SelectSeq(NamesSeq(S), LAMBDA p : Coin(s, 500 + NameIx(p), 25))
  IN [op |-> "new", slot |-> t, first |-> f, S |-> S, D |-> D, V |-> V, H |-> Hf, threads |-> Pick(s, 5, <<1, 2, 3>>), track |-> FALSE]
RndVals(s, names, pct) ==
  LET ns == {p \in names : Coin(s, 600 + NameIx(p), pct)}
  IN [p \in ns |-> GenVal(Sub(s, 700 + NameIx(p)), p)]
Used(st0) == SelectSeq(AllNames, LAMBDA p : p \in SpecNames(st0.S))
OneVal(s, p) == (p :> GenVal(Sub(s, 801), p))
Dress(st0, s, t, dat) ==
  LET ns == Used(st0)  p == Pick(s, 1, ns)  q == Pick(s, 2, ns)  w == Rnd(s, 3, 10)
  IN IF ~dat /\ Coin(s, 12, 40) THEN [op |-> "dress", slot |-> t, k |-> "alts", v |-> Shuffle(Sub(s, 13), st0.S.alts)]
     ELSE IF ns = <<>> \/ w = 0 THEN [op |-> "dress", slot |-> t, k |-> "title", v |-> Pick(s, 4, <<"one", "two", "a longer title">>)]
     ELSE IF w < 3 THEN [op |-> "dress", slot |-> t, k |-> "bounds", p |-> p, lo |-> (0 - 90 - Rnd(s, 5, 9)) * One, hi |-> (50 + Rnd(s, 6, 40)) * One]
     ELSE IF w < 4 THEN [op |-> "dress", slot |-> t, k |-> "init", p |-> p, v |-> GenVal(Sub(s, 7), p)]
     ELSE IF w < 5 THEN [op |-> "dress", slot |-> t, k |-> "note", p |-> p, v |-> Pick(s, 4, <<"fixed by hand", "see memo">>)]
     ELSE IF w < 7 THEN [op |-> "dress", slot |-> t, k |-> "role", n |-> Pick(s, 8, <<"choice_ca_var", "choice_co_code", "weight_co_var", "availability_var", "availability_co_vars", "choice_co_vars">>),
                         v |-> Pick(s, 9, <<"v1", "v2">>)]
     ELSE IF w < 8 THEN [op |-> "dress", slot |-> t, k |-> "order", v |-> ns]
     ELSE IF p = q \/ Coin(s, 10, 30) THEN [op |-> "dress", slot |-> t, k |-> "fixed", p |-> p, lo |-> (0 - 60) * One, hi |-> (20 + Rnd(s, 5, 9)) * One]
     ELSE IF Coin(s, 11, 50) THEN [op |-> "dress", slot |-> t, k |-> "order_bound", p |-> p, q |-> q]
     ELSE [op |-> "dress", slot |-> t, k |-> "ratio", p |-> p, q |-> q, lo |-> 250000 * (1 + Rnd(s, 5, 3)), hi |-> 500000 * (3 + Rnd(s, 6, 3))]

OnSlot(sl, s, t) ==
  LET st0 == sl.m
      now == [st0 EXCEPT !.V = [p \in SpecNames(st0.S) |-> @[p]]]
      w == Rnd(s, 1, 20)
      ns == Used(st0)  p == Pick(s, 2, ns)
      set == [op |-> "set", how |-> Pick(s, 3, <<"kw", "dict", "value">>), v |-> RndVals(Sub(s, 4), DOMAIN now.V, 60)]
      \* without data the alternatives of a cleared graph are not known
      ed == GenEdit(st0.S, Sub(s, 8))
      ed2 == IF ed.ed = "nest_clear" /\ ~sl.dat THEN [ed EXCEPT !.how = 2] ELSE ed
  IN IF w < 5 THEN ed2 @@ [slot |-> t, look |-> Coin(s, 9, 25)]
     ELSE IF w < 8 THEN set @@ [slot |-> t]
     ELSE IF w < 9 /\ ns # <<>> THEN [op |-> "hold", p |-> p, on |-> p \notin st0.H, slot |-> t]
     ELSE IF w < 10 /\ ns # <<>> THEN [op |-> "nullv", v |-> OneVal(s, p), slot |-> t]
     ELSE IF w < (IF sl.dat THEN 13 ELSE 15) THEN Dress(st0, Sub(s, 5), t, sl.dat)
     ELSE IF ~sl.dat \/ w = 13 THEN [op |-> "data", D |-> GenData(G, Sub(s, 7), st0.S), slot |-> t]
     ELSE [op |-> "eval", slot |-> t, via |-> Pick(s, 6, Vias), start |-> 0, stop |-> -1, step |-> 1, leave |-> -1, keep |-> -1, sub |-> -1,
           x |-> IF Coin(s, 10, 30) THEN RndVals(Sub(s, 11), DOMAIN now.V, 50) ELSE NoX, xhow |-> "dict"]

GenOp(s0, s) ==
  LET live == SelectSeq(Slots, LAMBDA t : s0[t].on)
      t == Pick(s, 1, live)
      to == IF \E x \in ToSet(Slots) : ~s0[x].on THEN CHOOSE x \in ToSet(Slots) : ~s0[x].on ELSE Pick(s, 2, SelectSeq(Slots, LAMBDA x : x # t))
      w == Rnd(s, 3, 100)
  IN IF w < 3 THEN NewOp(Sub(s, 4), to, FALSE)
     ELSE IF w < 22 THEN [op |-> "clone", slot |-> t, to |-> to, how |-> Pick(s, 5, Ways)]
     ELSE IF w < 38 THEN [op |-> "look", slot |-> t]
     ELSE OnSlot(s0[t], Sub(s, 6), t)

Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ ss = [t \in ToSet(Slots) |-> None]
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed, "A", TRUE) ELSE GenOp(ss, Sub(seed, 1000 * Len(hist))))
           IN hist' = Append(hist, e) /\ ss' = Step(ss, e @@ [err |-> "", obs |-> [x |-> 0]])
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
\* a model that is alive has a value for each parameter of its specification
LawNamed == \A t \in ToSet(Slots) : ss[t].on => SpecNames(ss[t].m.S) \subseteq DOMAIN ss[t].m.V
=============================================================================

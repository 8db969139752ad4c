---------------------------- MODULE LifecycleGen ----------------------------
(* Behaviours of Lifecycle: for every seed a pseudo random model, data and     *)
(* history of operations.  The laws of the choice model are invariants.        *)
EXTENDS Lifecycle, Json

CONSTANTS Seed, NBeh, Depth, Prof
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

G0 == [maxalt |-> 5, maxcase |-> 6, maxnest |-> 3, q |-> 25, multi |-> 0, multin |-> 0,
       sharemu |-> 0, frac |-> 15, wt |-> 40, zq |-> 10, av |-> 75]
G  == CASE Prof = "prob"  -> [G0 EXCEPT !.multi = 12, !.sharemu = 15]
        [] Prof = "ll"    -> [G0 EXCEPT !.multi = 5, !.frac = 35, !.wt = 70]
        [] Prof = "score" -> [G0 EXCEPT !.multi = 10, !.sharemu = 25, !.maxcase = 4]
        [] Prof = "stats" -> [G0 EXCEPT !.maxcase = 5, !.maxalt = 4, !.zq = 0, !.av = IF TRUE THEN 80 ELSE 0]
        [] Prof = "edit"  -> [G0 EXCEPT !.maxcase = 3, !.maxalt = 4, !.zq = 0, !.sharemu = 10]
        [] Prof = "est"   -> [G0 EXCEPT !.maxcase = 8, !.maxalt = 4, !.zq = 0, !.maxnest = 2, !.wt = 50, !.frac = 10]
        [] Prof = "numba" -> [G0 EXCEPT !.sharemu = 15, !.maxcase = 4, !.frac = 20, !.wt = 50]
        [] OTHER -> G0

Vias == CASE Prof = "prob" -> <<"utility", "utility_df", "logsums", "probability", "probability_nests", "probability_df",
                                "probability_names", "probability_idca", "probability_idce">>
          [] Prof = "ll" -> <<"loglike", "loglike", "loglike2", "casewise", "neg_loglike", "loglike2_bhhh">>
          [] Prof = "stats" -> <<"loglike", "loglike", "loglike2", "loglike2_bhhh", "d_loglike", "neg_loglike", "casewise">>
          [] Prof = "edit" -> <<"loglike", "loglike", "loglike2", "utility", "probability_df", "d_loglike", "probability_nests", "bhhh">>
          [] Prof = "est" -> <<"loglike", "loglike2", "d_loglike">>
          [] Prof = "numba" -> <<"loglike", "loglike2", "d_loglike", "d_loglike_series", "neg_loglike", "bhhh", "bhhh_df", "loglike2_bhhh",
                                 "loglike2_bhhh_casewise", "casewise", "d_casewise", "utility", "utility_df", "utility_array", "logsums",
                                 "logsums_arr", "probability", "probability_nests", "probability_df", "probability_idca">>
          [] Prof = "score" -> <<"d_loglike", "loglike2", "loglike2_bhhh", "bhhh", "casewise", "neg_d_loglike">>

\* where the data of a numba model come from; weights are normalized by DataFrames only
Srcs == <<"frames", "frames", "idca", "idca", "idco", "idce", "idce">>
Src(s) == IF Prof = "numba" THEN [src |-> Pick(s, 81, Srcs), crack |-> Coin(s, 82, 40)] ELSE [p \in {} |-> 0]
DataOf(s, S, src) == LET D == GenData(G, s, S) IN IF Prof = "numba" /\ src # "frames" THEN [D EXCEPT !.norm = One] ELSE D
\* the numba engine knows trees only: no node has two parents
IsTree(S) == FoldSeq(LAMBDA x, y : Len(x.ch) + y, 0, S.nests) = Len(S.alts) + Len(S.nests) - 1
SpecOf(s) == IF Prof # "numba" THEN GenSpec(G, s)
             ELSE LET c == SelectSeq(FillSeq(8, LAMBDA k : GenSpec(G, Sub(s, 100 + k))), IsTree)
                  IN IF c # <<>> THEN c[1]
                     ELSE LET S == GenSpec(G, s) IN [S EXCEPT !.nests = <<[code |-> 0, p |-> "", ch |-> [a \in 1..Len(S.alts) |-> a]]>>]
NewOp(s) ==
  LET S == TLCEval(SpecOf(Sub(s, 1)))
      F == Src(s)
      D == TLCEval(DataOf(Sub(s, 2), S, IF Prof = "numba" THEN F.src ELSE ""))
      V == TLCEval(GenVals(Sub(s, 3), SpecNames(S)))
      ns == NamesSeq(S)
      Hf == IF Prof = "prob" \/ Coin(s, 4, 50) THEN <<>>
           ELSE SelectSeq(ns, LAMBDA p : Coin(s, 500 + NameIx(p), 25))
  IN [op |-> "new", S |-> S, D |-> D, V |-> V, H |-> Hf, threads |-> Pick(s, 5, <<1, 2, 3, 8>>), track |-> Prof = "stats"] @@ F

Methods == <<"default", "default", "default", "slsqp", "bhhh", "bhhh", "l-bfgs-b", "tnc", "slsqp">>
NowV(st0) == [p \in SpecNames(st0.S) |-> st0.V[p]]
EstOp(st0, s) ==
  LET k == IF st0.D.n > 2 /\ Coin(s, 1, 20) THEN 2 + Rnd(s, 2, 2) ELSE 1
      f == Rnd(s, 3, k)  lv == Coin(s, 4, 60)
      m == Pick(s, 5, Methods)
      \* searches that look far are given limits first
      free == {p \in SpecNames(st0.S) : p \notin st0.H /\ st0.L[p][2] > 20 * One}
  IN IF m \notin {"default", "bhhh"} /\ free # {} THEN [op |-> "cap", c |-> Pick(s, 7, <<5 * One, 8 * One, 10 * One>>)] ELSE
     [op |-> "est", method |-> m, maxiter |-> Pick(s, 6, IF free = {} THEN <<1, 2, 4, 8, 30, 100>> ELSE <<1, 2, 3, 4, 6, 8>>),
      start |-> 0, stop |-> -1, step |-> 1,
      leave |-> IF k > 1 /\ lv THEN f ELSE -1, keep |-> IF k > 1 /\ ~lv THEN f ELSE -1, sub |-> IF k > 1 THEN k ELSE -1]
BoundOp(st0, s) ==
  LET ns == SelectSeq(AllNames, LAMBDA p : p \in SpecNames(st0.S) /\ p \notin st0.H /\ Coin(s, 500 + NameIx(p), 45))
      B(p) == IF p \in ScaleNames THEN <<Pick(s, 20 + NameIx(p), <<200000, 250000, 300000>>), One>>
              ELSE LET side == Rnd(s, 90, 5) IN
                   <<IF side <= 1 THEN -Wide ELSE 0 - Pick(s, 20 + NameIx(p), <<One, 2 * One, 3500000>>),
                     IF side = 2 THEN Wide ELSE Pick(s, 60 + NameIx(p), <<1300000, 2 * One, 4 * One>>)>>
  IN [op |-> "bound", v |-> [p \in ToSet(ns) |-> B(p)]]
RndVals(s, names, pct) ==
  LET ns == {p \in names : Coin(s, 600 + NameIx(p), pct)}
  IN [p \in ns |-> GenVal(Sub(s, 700 + NameIx(p)), p)]

SliceArgs(s, n) ==
  LET a == IF Coin(s, 1, 60) THEN Rnd(s, 2, n) ELSE 0
      z == IF Coin(s, 3, 50) THEN a + 1 + Rnd(s, 4, n - a) ELSE -1
      t == IF Coin(s, 5, 40) THEN 1 + Rnd(s, 6, 3) ELSE 1
      k == IF Coin(s, 7, 55) THEN 1 + Rnd(s, 8, 4) ELSE 1
      f == Rnd(s, 9, k)
      lv == Coin(s, 10, 50)
  IN [start |-> a, stop |-> z, step |-> t,
      leave |-> IF k > 1 /\ lv THEN f ELSE -1, keep |-> IF k > 1 /\ ~lv THEN f ELSE -1, sub |-> IF k > 1 THEN k ELSE -1]
Whole == [start |-> 0, stop |-> -1, step |-> 1, leave |-> -1, keep |-> -1, sub |-> -1]

Sliced(via) == via \in {"loglike", "loglike2", "loglike2_bhhh", "neg_loglike", "d_loglike", "neg_d_loglike"}
SlicedP(via) == Prof = "numba" \/ via \in {"probability", "probability_nests", "probability_df", "probability_names", "casewise"}
NestsOnly(via) == via \in {"d_probability"}

EvalOp(st0, s, via) ==
  LET sl == IF (Sliced(via) \/ SlicedP(via)) /\ Coin(s, 2, 45) /\ st0.D.n > 1 THEN SliceArgs(Sub(s, 3), st0.D.n) ELSE Whole
      a  == IF Prof = "numba" \/ SlicedP(via) THEN [sl EXCEPT !.leave = -1, !.keep = -1, !.sub = -1] ELSE sl
      withx == Coin(s, 4, 40) /\ via # "neg_loglike_x"
  IN [op |-> "eval", via |-> via, start |-> a.start, stop |-> a.stop, step |-> a.step,
      leave |-> a.leave, keep |-> a.keep, sub |-> a.sub,
      x |-> IF withx THEN RndVals(Sub(s, 5), DOMAIN st0.V, 50) ELSE [p \in {} |-> 0], xhow |-> IF Prof = "stats" /\ ~withx /\ Coin(s, 8, 15) THEN "null" ELSE "dict"]

SetOp(st0, s) == [op |-> "set", how |-> Pick(s, 1, <<"kw", "dict", "vec", "value">>), v |-> RndVals(Sub(s, 2), DOMAIN st0.V, 60)]

Names0(st0) == SelectSeq(AllNames, LAMBDA p : p \in SpecNames(st0.S))
NoX == [p \in {} |-> 0]
OneVal(s, p) == (p :> GenVal(Sub(s, 801), p))

StatOp(st0, s) ==
  LET w == Pick(s, 1, <<"null", "null", "best", "best", "nil", "const", "rho_null", "rho_nil", "set_null",
                        IF \E i \in 1..Len(st0.ev) : st0.ev[i].must THEN "set_best" ELSE "best">>)
      withx == w \in {"rho_null", "rho_nil"} /\ Coin(s, 2, 50)
  IN [op |-> "stat", which |-> w, x |-> IF withx THEN RndVals(Sub(s, 3), SpecNames(st0.S), 50) ELSE NoX, xhow |-> "dict"]

PfOp(st0, s) ==
  LET ns == Names0(st0)
      p == Pick(s, 1, ns)
      w == Rnd(s, 2, 4)
  IN IF ns = <<>> THEN [op |-> "threads", n |-> 2]
     ELSE IF w = 0 THEN [op |-> "nullv", v |-> OneVal(s, p)]
     ELSE IF w = 1 THEN [op |-> "lock", v |-> OneVal(s, p)]
     ELSE [op |-> "hold", p |-> p, on |-> p \notin st0.H]

GenOp(st0, s) ==
  IF Prof = "stats" THEN
    LET w == Rnd(s, 1, 20) IN
    IF w < 3 THEN SetOp([st0 EXCEPT !.V = [p \in SpecNames(st0.S) |-> @[p]]], Sub(s, 2))
    ELSE IF w < 9 THEN EvalOp([st0 EXCEPT !.V = [p \in SpecNames(st0.S) |-> @[p]]], Sub(s, 3), Pick(s, 4, Vias))
    ELSE IF w < 15 THEN StatOp(st0, Sub(s, 5))
    ELSE IF w < 17 THEN PfOp(st0, Sub(s, 6))
    ELSE IF w < 18 THEN [op |-> "data", D |-> GenData(G, Sub(s, 7), st0.S)]
    ELSE GenEdit(st0.S, Sub(s, 8)) @@ [look |-> Coin(s, 9, 50)]
  ELSE IF Prof = "est" THEN
    LET w == Rnd(s, 1, 20)
        now == [st0 EXCEPT !.V = [p \in SpecNames(st0.S) |-> @[p]]]
    IN IF w < 9 \/ (hist[Len(hist)].op = "bound" /\ w < 17) THEN EstOp(st0, Sub(s, 3))
       ELSE IF w < 13 THEN BoundOp(st0, Sub(s, 4))
       ELSE IF w < 13 THEN [op |-> "cap", c |-> Pick(s, 5, <<2 * One, 5 * One, 10 * One>>)]
       ELSE IF w < 16 THEN SetOp(now, Sub(s, 2))
       ELSE IF w < 18 THEN PfOp(st0, Sub(s, 6))
       ELSE IF w < 19 THEN [op |-> "data", D |-> GenData(G, Sub(s, 7), st0.S)]
       ELSE EvalOp(now, Sub(s, 3), Pick(s, 4, Vias))
  ELSE IF Prof = "edit" THEN
    LET w == Rnd(s, 1, 20) IN
    IF w < 11 THEN GenEdit(st0.S, Sub(s, 8)) @@ [look |-> Coin(s, 9, 25)]
    ELSE IF w < 14 THEN SetOp([st0 EXCEPT !.V = [p \in SpecNames(st0.S) |-> @[p]]], Sub(s, 2))
    ELSE IF w < 15 THEN [op |-> "purge"]
    ELSE IF w < 16 THEN PfOp(st0, Sub(s, 6))
    ELSE EvalOp([st0 EXCEPT !.V = [p \in SpecNames(st0.S) |-> @[p]]], Sub(s, 3), Pick(s, 4, Vias))
  ELSE IF Prof = "numba" /\ Coin(s, 9, 10) THEN
    LET src == hist[1].src IN [op |-> "data", D |-> DataOf(Sub(s, 7), st0.S, src), src |-> src, crack |-> Coin(s, 82, 40)]
  ELSE IF Prof = "numba" /\ Coin(s, 10, 12) THEN PfOp(st0, Sub(s, 6))
  ELSE IF Coin(s, 1, 25) THEN SetOp(st0, Sub(s, 2))
  ELSE IF Prof = "ll" /\ Coin(s, 6, 10) THEN [op |-> "threads", n |-> Pick(s, 7, <<1, 2, 3, 5, 8>>)]
  ELSE EvalOp(st0, Sub(s, 3), Pick(s, 4, Vias))

Nil == [S |-> [alts |-> <<>>, nests |-> <<>>], D |-> [n |-> 0], V |-> [p \in {} |-> 0], H |-> {}, ev |-> <<>>, N |-> [p \in {} |-> 0], track |-> FALSE]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = Nil
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist))))
           IN hist' = Append(hist, e) /\ st' = Apply(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Laws of the model itself, checked in every state of every behaviour
Rs == [c \in 1..st.D.n |-> Case(st.S, st.D, st.V, NamesSeq(st.S), c)]
LawProb == hist # <<>> =>
  LET R == TLCEval(Rs) IN
  \A c \in 1..st.D.n :
    /\ R[c].ok[Root(st.S)] => Close(SumF(R[c].p, 1, NAlt(st.S)), One, 50)
    /\ \A a \in 1..NAlt(st.S) : st.D.av[c][a] = 0 => R[c].p[a] = 0
    \* the score of every alternative's probability, weighted by probability, is zero
    /\ \A k \in 1..Len(NamesSeq(st.S)) :
         Close(SumSeq([a \in 1..NAlt(st.S) |-> Mul(R[c].p[a], R[c].dlp[a][k])]), 0, 3000)
=============================================================================

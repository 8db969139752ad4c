----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* A model object over its life: it is built, its parameters are set, its    *)
(* data replaced, and it is asked to compute.  State st:                      *)
(*   S specification, D data, V values of the parameters, H held fast,         *)
(* An operation is a record with field op; Apply gives the next state, and     *)
(* Judge the sequence of clauses that an observation violates.                 *)
(***************************************************************************)
EXTENDS Edits



TolP  == 40        \* probabilities, 4e-5
TolU  == 60        \* utilities
TolL  == 150       \* log likelihoods and derivatives (relative to max(1, |x|))

\* positions of the cases in the order of the data collection (ascending case id)
Ord(D) == SortSeq([c \in 1..D.n |-> c], LAMBDA a, b : D.ids[a] < D.ids[b])

SliceOf(D, e) ==
  LET o  == Ord(D)
      sl == Slice(D.n, e.start, e.stop, e.step, e.leave, e.keep, e.sub)
  IN [i \in 1..Len(sl) |-> o[sl[i]]]

\* the cases of a slice in the order of the scenario (the driver lists rows so)
InSc(D, cs) == SelectSeq([c \in 1..D.n |-> c], LAMBDA c : \E i \in 1..Len(cs) : cs[i] = c)

Upd(V, v) == [p \in DOMAIN V |-> IF p \in DOMAIN v THEN v[p] ELSE V[p]]
\* bulk value setting leaves held-fast parameters alone (set_values respects holdfast)
UpdFree(V, Hf, v) == [p \in DOMAIN V |-> IF p \in DOMAIN v /\ p \notin Hf THEN v[p] ELSE V[p]]

\* parameters that are new get default values
ScaleNames == {MNames[i] : i \in 1..Len(MNames)} \cup {"qs"}
Default(p) == IF p \in ScaleNames THEN One ELSE 0
Wide == 2000 * One
DefaultLimits(p) == IF p \in ScaleNames THEN <<1000, One>> ELSE <<-Wide, Wide>>
Extend(V, names) == [p \in DOMAIN V \cup names |-> IF p \in DOMAIN V THEN V[p] ELSE Default(p)]

\* log likelihood of all cases at values V
LLAt(S, D, V) ==
  LET Rs == TLCEval([c \in 1..D.n |-> Case(S, D, V, <<>>, c)]) IN TotalLL(S, D, Rs, All(D.n))
\* null values: held-fast parameters stay where they are
NullV(st) == [p \in DOMAIN st.V |-> IF p \in st.H THEN st.V[p] ELSE st.N[p]]
\* no model at all: equal shares of what is available
NilS(S) == [S EXCEPT !.ca = <<>>, !.co = [a \in 1..Len(S.alts) |-> <<>>], !.q = <<>>, !.qs = "",
                     !.nests = <<[code |-> 0, p |-> "", ch |-> [a \in 1..Len(S.alts) |-> a]]>>]

\* the evaluations of the full sample that count for the best log likelihood
LLVias == {"loglike", "neg_loglike", "loglike2", "loglike2_bhhh", "d_loglike", "neg_d_loglike", "bhhh", "casewise"}
WholeSample(e) == e.start = 0 /\ e.stop = -1 /\ e.step = 1 /\ e.leave < 0 /\ e.keep < 0
Record(st, V) == IF st.track THEN [st EXCEPT !.ev = Append(@, [ll |-> LLAt(st.S, st.D, V), at |-> V, must |-> TRUE])] ELSE st

StartV(st, e) == CASE e.xhow = "null" -> UpdFree(st.V, st.H, st.N)
                   [] OTHER -> UpdFree(st.V, st.H, e.x)

Apply(st, e) ==
  CASE e.op = "new" -> LET ns == SpecNames(e.S) IN
           [S |-> e.S, D |-> e.D, V |-> e.V, H |-> ToSet(e.H), track |-> e.track,
            N |-> [p \in ns |-> IF p \in ToSet(e.H) THEN e.V[p] ELSE Default(p)], ev |-> <<>>,
            \* limits of the parameters that an estimation respects; values before the last estimation
            L |-> [p \in ns |-> IF p \in ToSet(e.H) THEN <<e.V[p], e.V[p]>> ELSE DefaultLimits(p)], W |-> e.V]
    [] e.op = "set" -> [st EXCEPT !.V = IF e.how = "value" THEN Upd(st.V, e.v) ELSE UpdFree(st.V, st.H, e.v)]
    [] e.op = "threads" -> st
    [] e.op = "eval" -> LET s2 == [st EXCEPT !.V = StartV(st, e)]
                        IN IF e.via \in LLVias /\ WholeSample(e) THEN Record(s2, s2.V) ELSE s2
    [] e.op = "edit" -> LET S2 == EditS(st.S, e)
                        IN [st EXCEPT !.S = S2, !.V = Extend(@, SpecNames(S2)), !.N = Extend(@, SpecNames(S2)), !.ev = <<>>,
                                       !.L = [p \in DOMAIN @ \cup SpecNames(S2) |-> IF p \in DOMAIN @ THEN @[p] ELSE DefaultLimits(p)]]
    [] e.op = "purge" -> LET ns == SpecNames(st.S)
                         IN [st EXCEPT !.V = [p \in ns |-> @[p]], !.N = [p \in ns |-> @[p]], !.H = @ \cap ns, !.L = [p \in ns |-> @[p]],
                                       !.ev = [i \in 1..Len(@) |-> [@[i] EXCEPT !.must = FALSE]]]
    [] e.op = "data" -> [st EXCEPT !.D = e.D, !.ev = <<>>]
    [] e.op = "nullv" -> [st EXCEPT !.N = Upd(@, e.v)]
    [] e.op = "lock" -> [st EXCEPT !.V = Upd(@, e.v), !.N = Upd(@, e.v), !.H = @ \cup DOMAIN e.v,
                                  !.L = [p \in DOMAIN @ |-> IF p \in DOMAIN e.v THEN <<e.v[p], e.v[p]>> ELSE @[p]]]
    [] e.op = "bound" -> [st EXCEPT !.L = [p \in DOMAIN @ |-> IF p \in DOMAIN e.v THEN e.v[p] ELSE @[p]]]
    [] e.op = "cap" -> [st EXCEPT !.L = [p \in DOMAIN @ |-> IF Max2(@[p][1], -e.c) <= Min2(@[p][2], e.c)
                                                             THEN <<Max2(@[p][1], -e.c), Min2(@[p][2], e.c)>> ELSE @[p]]]
    \* an estimation may end anywhere (Judge says where it should not); from there the history goes on
    [] e.op = "est" -> [st EXCEPT !.W = st.V, !.V = IF "obs" \in DOMAIN e /\ "vals" \in DOMAIN e.obs THEN Upd(@, e.obs.vals) ELSE @]
    [] e.op = "hold" -> [st EXCEPT !.H = IF e.on THEN @ \cup {e.p} ELSE @ \ {e.p}]
    [] e.op = "stat" -> CASE e.which = "null" -> Record(st, NullV(st))
                          [] e.which = "rho_null" -> Record(Record([st EXCEPT !.V = StartV(st, e)], StartV(st, e)),
                                                            NullV([st EXCEPT !.V = StartV(st, e)]))
                          [] e.which = "rho_nil" -> Record([st EXCEPT !.V = StartV(st, e)], StartV(st, e))
                          [] OTHER -> st
    [] OTHER -> st

-----------------------------------------------------------------------------
\* comparison of observations with the model; each clause is <<name, holds>>
\* (parameters that an earlier specification referred to may remain)
ValsOk(st, o) == /\ SpecNames(st.S) \subseteq DOMAIN o.vals /\ DOMAIN o.vals \subseteq DOMAIN st.V
                 /\ \A p \in DOMAIN o.vals : Close(o.vals[p], st.V[p], 2)

\* is everything that is chosen (with weight) possible?
NoBad(st, Rs, cs) == \A i \in 1..Len(cs) : ~CaseBad(st.S, st.D, Rs[cs[i]], cs[i])

SeqClose(o, x, tol) == Len(o) = Len(x) /\ \A i \in 1..Len(x) : CloseRel(o[i], x[i], tol)

GradVia == {"loglike2", "d_loglike", "neg_d_loglike", "loglike2_bhhh", "bhhh", "casewise", "d_probability",
            "d_casewise", "d_loglike_series", "bhhh_df", "loglike2_bhhh_casewise"}

\* values that fixed point arithmetic can follow
SizeNames == {QNames[i] : i \in 1..Len(QNames)}
Moderate(V) == \A p \in DOMAIN V : IF p \in ScaleNames THEN V[p] >= 150000 /\ V[p] <= 3 * One
                                   ELSE Abs(V[p]) <= (IF p \in SizeNames THEN 4 ELSE 12) * One

JudgeEval(st, e, o) ==
  LET S == st.S  D == st.D  V == st.V
      PS == TLCEval(NamesSeq(S))
      GP == IF e.via \in GradVia THEN PS ELSE <<>>
      Rs == TLCEval([c \in 1..D.n |-> Case(S, D, V, GP, c)])
      cs == TLCEval(SliceOf(D, e))
      is == TLCEval(InSc(D, cs))
      Hz(p, x) == IF p \in st.H THEN 0 ELSE x
      LLok  == CloseRel(o.ll, TotalLL(S, D, Rs, cs), TolL)
      dLLok == /\ SpecNames(S) \subseteq DOMAIN o.dll
               /\ \A p \in DOMAIN o.dll \ SpecNames(S) : o.dll[p] = 0
               /\ \A k \in 1..Len(PS) : CloseRel(o.dll[PS[k]], Hz(PS[k], Score(S, D, Rs, cs, k)), TolL)
      Bok   == /\ SpecNames(S) \subseteq DOMAIN o.bhhh
               /\ \A k \in 1..Len(PS) : \A l \in 1..Len(PS) :
                    CloseRel(o.bhhh[PS[k]][PS[l]], Hz(PS[k], Hz(PS[l], BHHH(S, D, Rs, cs, k, l))), TolL)
      CLLok == /\ Len(o.cll) = Len(is)
               /\ \A i \in 1..Len(is) :
                    CloseRel(o.cll[i], Mul(D.norm, Mul(D.wt[is[i]], CaseLL(S, D, Rs[is[i]], is[i]))), TolL)
      CDok  == /\ Len(o.cdll) = Len(is)
               /\ \A i \in 1..Len(is) : \A k \in 1..Len(PS) :
                    CloseRel(o.cdll[i][PS[k]],
                             Hz(PS[k], Mul(D.norm, Mul(D.wt[is[i]], CaseScore(S, D, Rs[is[i]], is[i], k)))), TolL)
      Width(r) == Len(r) \in {NAlt(S), NNode(S)}
      Uok   == /\ Len(o.u) = Len(is)
               /\ \A i \in 1..Len(is) : /\ Width(o.u[i])
                    /\ \A a \in 1..Len(o.u[i]) : CloseRel(o.u[i][a], Rs[is[i]].u[a], TolU)
      Pok   == /\ Len(o.p) = Len(is)
               /\ \A i \in 1..Len(is) : /\ Width(o.p[i])
                    /\ \A a \in 1..Len(o.p[i]) :
                            \* (of the nests of a case without any possible alternative nothing is claimed)
                            \/ a > NAlt(S) /\ ~Rs[is[i]].ok[Root(S)]
                            \/ Close(o.p[i][a], Rs[is[i]].p[a], TolP)
      Zok   == \A i \in 1..Len(is) : \A a \in 1..NAlt(S) : ~Rs[is[i]].ok[a] => o.p[i][a] = 0
      One1  == \A i \in 1..Len(is) : Rs[is[i]].ok[Root(S)] => Close(SumF(o.p[i], 1, NAlt(S)), One, 8)
      LSok  == /\ Len(o.ls) = Len(is)
               /\ \A i \in 1..Len(is) : CloseRel(o.ls[i], Rs[is[i]].u[Root(S)], TolU)
      CEok  == \A c \in 1..D.n :
                 LET r == o.ce[ToString(c)]
                 IN /\ DOMAIN r = {ToString(a) : a \in {b \in 1..NAlt(S) : D.av[c][b] # 0}}
                    /\ \A a \in 1..NAlt(S) : D.av[c][a] # 0 => Close(r[ToString(a)], Rs[c].p[a], TolP)
      DPok  == /\ Len(o.dp) = D.n
               /\ \A c \in 1..D.n : \A a \in 1..NAlt(S) : \A k \in 1..Len(PS) :
                    CloseRel(o.dp[c][a][PS[k]],
                             Hz(PS[k], IF Rs[c].ok[a] THEN Mul(Rs[c].p[a], Rs[c].dlp[a][k]) ELSE 0), TolL)
      has(f) == f \in DOMAIN o
  IN <<<<"parameter values after the call", ValsOk(st, o)>>>>
     \o (IF has("ll")   THEN <<<<"log likelihood", LLok>>>> ELSE <<>>)
     \o (IF has("dll")  THEN <<<<"score", dLLok>>>> ELSE <<>>)
     \o (IF has("bhhh") THEN <<<<"bhhh", Bok>>>> ELSE <<>>)
     \o (IF has("cll")  THEN <<<<"casewise log likelihood", CLLok>>>> ELSE <<>>)
     \o (IF has("cdll") THEN <<<<"casewise score", CDok>>>> ELSE <<>>)
     \o (IF has("u")    THEN <<<<"utility", Uok>>>> ELSE <<>>)
     \o (IF has("p")    THEN <<<<"probability", Pok>>, <<"zero when unavailable", Zok>>, <<"adds up to one", One1>>>> ELSE <<>>)
     \o (IF has("ls")   THEN <<<<"logsum", LSok>>>> ELSE <<>>)
     \o (IF has("ce")   THEN <<<<"probability in idce form", CEok>>>> ELSE <<>>)
     \o (IF has("dp")   THEN <<<<"derivative of probability", DPok>>>> ELSE <<>>)
     \o <<<<"result is there", DOMAIN o # {"vals"}>>>>

\* statistics; the state is the one after the event
JudgeStat(st, e, o) ==
  LET best == IF st.ev = <<>> THEN NInf ELSE FoldSeq(LAMBDA x, y : IF x.must THEN Max2(x.ll, y) ELSE y, NInf, st.ev)
      Hit(r) == \E i \in 1..Len(st.ev) : /\ CloseRel(r.ll, st.ev[i].ll, TolL)
                                        /\ \A p \in DOMAIN r.at : Close(r.at[p], st.ev[i].at[p], 2)
      Obs1 == [ll |-> o.ll, at |-> o.at]
      nil == LLAt(NilS(st.S), st.D, st.V)
      AllAv == \A c \in 1..st.D.n : \A a \in 1..NAlt(st.S) : st.D.av[c][a] # 0
      A == NAlt(st.S)
      tot(a) == SumSeq([c \in 1..st.D.n |-> Mul(st.D.wt[c], st.D.ch[c][a])])
      all == SumSeq([a \in 1..A |-> tot(a)])
      closed == Mul(st.D.norm, SumSeq([a \in 1..A |-> IF tot(a) = 0 THEN 0 ELSE Mul(tot(a), Ln(Div(tot(a), all)))]))
      rho(base) == One - Div(LLAt(st.S, st.D, st.V), base)
  IN CASE e.which = "null" -> <<<<"log likelihood at null values", CloseRel(o.ll, LLAt(st.S, st.D, NullV(st)), TolL)>>,
                                <<"parameter values after the call", ValsOk(st, o)>>>>
       [] e.which = "nil"  -> <<<<"log likelihood without a model", CloseRel(o.ll, nil, TolL)>>,
                                <<"parameter values after the call", ValsOk(st, o)>>>>
       [] e.which = "const" -> <<<<"log likelihood of constants only is that of the shares",
                                   /\ o.ll <= TolL /\ (IsNum(nil) => o.ll >= nil - 20 * TolL)
                                   /\ AllAv => CloseRel(o.ll, closed, 30 * TolL)>>,
                                 <<"parameter values after the call", ValsOk(st, o)>>>>
       [] e.which = "rho_null" -> <<<<"rho squared against null", LET b == LLAt(st.S, st.D, NullV(st))
                                        IN b < -200000 => CloseRel(o.ll, rho(b), 4 * TolL)>>,
                                    <<"parameter values after the call", ValsOk(st, o)>>>>
       [] e.which = "rho_nil" -> <<<<"rho squared against nil", nil < -200000 => CloseRel(o.ll, rho(nil), 4 * TolL)>>,
                                   <<"parameter values after the call", ValsOk(st, o)>>>>
       [] e.which = "best" -> <<<<"best log likelihood is the highest of the full sample",
                                  IF o.has THEN CloseRel(o.ll, Max2(o.ll, best), TolL) ELSE best = NInf>>,
                                <<"best values belong to the best log likelihood", o.has => Hit(Obs1)>>,
                                <<"parameter values after the call", ValsOk(st, o)>>>>
       [] e.which = "set_best" -> <<<<"values of the best log likelihood",
                                      \E i \in 1..Len(st.ev) : \A p \in DOMAIN o.vals :
                                          Close(o.vals[p], IF p \in st.H THEN st.V[p] ELSE st.ev[i].at[p], 2)>>>>
       [] e.which = "set_null" -> <<<<"null values", \A p \in DOMAIN o.vals : Close(o.vals[p], NullV(st)[p], 2)>>>>

\* an estimation: held parameters, limits, no loss, and a report that belongs together
InLimits(st, V) == \A p \in DOMAIN V \ st.H : V[p] >= st.L[p][1] - 2 /\ V[p] <= st.L[p][2] + 2
Bounding == {"default", "slsqp", "l-bfgs-b", "tnc", "trust-constr"}
JudgeEst(st, e, o) ==
  LET S == st.S  D == st.D  PS == NamesSeq(S)
      cs == TLCEval(SliceOf(D, e))
      LL(V) == LET Rs == TLCEval([c \in 1..D.n |-> Case(S, D, V, <<>>, c)]) IN TotalLL(S, D, Rs, cs)
      full(x) == [p \in DOMAIN st.V |-> IF p \in DOMAIN x THEN x[p] ELSE st.V[p]]
      X == full(o.x)
      gain == LET a == LL(st.W)  b == LL(st.V) IN ~IsNum(a) \/ (IsNum(b) /\ b >= a - Max2(300, Mul(300, Abs(a))))
      Rg == TLCEval([c \in 1..D.n |-> Case(S, D, X, PS, c)])
      Hz(p, x) == IF p \in st.H THEN 0 ELSE x
  IN <<<<"held-fast parameters keep their values", \A p \in DOMAIN st.V \cap st.H : Abs(st.V[p] - st.W[p]) <= 1>>,
       <<"parameters stay within their bounds", (e.method \in Bounding /\ InLimits(st, st.W)) => InLimits(st, st.V)>>,
       \* (a search of scipy's that is cut off may stop in the middle of a step)
       <<"ends no lower than it started", ((o.conv \/ o.bhhh) /\ InLimits(st, st.W) /\ Moderate(st.W) /\ Moderate(st.V)) => gain>>,
       <<"the reported parameters are those of the model", DOMAIN o.x = DOMAIN o.vals /\ \A p \in DOMAIN o.x : Close(o.x[p], o.vals[p], 2)>>,
       <<"the reported log likelihood is that of the reported parameters", Moderate(X) => CloseRel(o.ll, LL(X), TolL)>>,
       <<"the reported log likelihood is that of the model", o.ll = o.again \/ (IsNum(o.ll) /\ CloseRel(o.ll, o.again, TolL))>>>>
     \o (IF "dll" \in DOMAIN o /\ Moderate(X)
         THEN <<<<"the reported score is that of the reported parameters",
                  \A k \in 1..Len(PS) : CloseRel(o.dll[PS[k]], Hz(PS[k], Score(S, D, Rg, cs, k)), 3 * TolL)>>>>
         ELSE <<>>)
     \o (IF o.conv /\ o.bhhh /\ Moderate(X)
         THEN <<<<"the score vanishes at convergence",
                  \A k \in 1..Len(PS) : LET g == Hz(PS[k], Score(S, D, Rg, cs, k))
                                             b == BHHH(S, D, Rg, cs, k, k)
                                         IN Mul(g, g) <= Mul(40, b) + 50>>>>
         ELSE <<>>)

\* the clauses for one event, given the state after it
Judge(st, e) ==
  IF e.op = "est" /\ ~Moderate(st.W) THEN <<>>         \* (there is no telling from a start like that)
  ELSE IF e.op = "est" /\ e.err # "" /\ e.obs.lost THEN \* (a search may get lost, but loudly)
       <<<<"held-fast parameters keep their values", \A p \in DOMAIN st.V \cap st.H : Abs(st.V[p] - st.W[p]) <= 1>>>>
  ELSE IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>>
  ELSE CASE e.op = "new" -> <<<<"parameter names", ToSet(e.obs.names) = SpecNames(e.S)>>,
                              <<"parameter values", ValsOk(st, e.obs)>>>>
         [] e.op \in {"set", "nullv", "lock", "hold"} -> <<<<"parameter values", ValsOk(st, e.obs)>>>>
         [] e.op = "data" -> <<<<"parameter values", ValsOk(st, e.obs)>>>>
         [] e.op = "edit" -> IF "names" \in DOMAIN e.obs
                             THEN <<<<"parameter names", /\ SpecNames(st.S) \subseteq ToSet(e.obs.names)
                                                         /\ ToSet(e.obs.names) \subseteq DOMAIN st.V>>,
                                    <<"parameter values", ValsOk(st, e.obs)>>>>
                             ELSE <<>>
         [] e.op = "purge" -> <<<<"parameter names", ToSet(e.obs.names) = SpecNames(st.S)>>,
                                <<"parameter values", ValsOk(st, e.obs)>>>>
         [] e.op = "eval" -> IF Moderate(st.V) THEN JudgeEval(st, e, e.obs) ELSE <<<<"parameter values after the call", ValsOk(st, e.obs)>>>>
         [] e.op = "est" -> JudgeEst(st, e, e.obs)
         [] e.op \in {"bound", "cap"} -> <<<<"parameter values", ValsOk(st, e.obs)>>,
               <<"limits", \A p \in DOMAIN st.L \cap DOMAIN e.obs.limits : Close(Max2(-Wide, e.obs.limits[p][1]), st.L[p][1], 1) /\ Close(Min2(Wide, e.obs.limits[p][2]), st.L[p][2], 1)>>>>
         [] e.op = "stat" -> JudgeStat(st, e, e.obs)
         [] OTHER -> <<>>
=============================================================================

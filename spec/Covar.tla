------------------------------- MODULE Covar -------------------------------
(* The covariance of the parameters: information matrix, its inverse over the   *)
(* free parameters with the binding limits taken out, the sandwich, standard     *)
(* errors, t statistics, and likelihood ratios.                                   *)
(* state: that of Lifecycle, and cons: orderings p <= q of two parameters         *)
(*                                                                               *)
(* Matrices are observed scaled to a largest entry below two: o.X[p][q].          *)
EXTENDS Lifecycle

ApplyC(st, e) ==
  CASE e.op = "new" -> Apply(st, e) @@ [cons |-> <<>>]
    [] e.op = "cons" -> [st EXCEPT !.cons = e.c]
    [] OTHER -> Apply(st, e)

\* minus the derivative of the score along parameter p, by differences
H0 == 15625
ScoreAt(st, PS, V) == LET Rs == TLCEval([c \in 1..st.D.n |-> Case(st.S, st.D, V, PS, c)])
                      IN TLCEval([k \in 1..Len(PS) |-> Score(st.S, st.D, Rs, All(st.D.n), k)])
HessCol(st, PS, p) ==
  LET up == ScoreAt(st, PS, [st.V EXCEPT ![p] = @ + H0])
      dn == ScoreAt(st, PS, [st.V EXCEPT ![p] = @ - H0])
  IN TLCEval([k \in 1..Len(PS) |-> IF IsNum(up[k]) /\ IsNum(dn[k]) THEN 32 * (dn[k] - up[k]) ELSE NaN])

At(x, y) == Abs(x - y) <= 5
AtLimit(st, p) == At(st.V[p], st.L[p][1]) \/ At(st.V[p], st.L[p][2])
NearLimit(st, p) == \E i \in 1..2 : Abs(st.V[p] - st.L[p][i]) < 1000 /\ ~At(st.V[p], st.L[p][i])
AtOrder(st, c) == At(st.V[c.p], st.V[c.q])
Tied(st) == {i \in 1..Len(st.cons) : AtOrder(st, st.cons[i])}

JudgeCov(st, e, o) ==
  LET S == st.S  D == st.D
      PS == TLCEval(NamesSeq(S))
      n == Len(PS)
      \* numbers of the parameters that move
      F == TLCEval(SelectSeq([k \in 1..n |-> k], LAMBDA k : PS[k] \notin st.H))
      ties == Tied(st)
      tied == UNION {{st.cons[i].p, st.cons[i].q} : i \in ties}
      lim(k) == AtLimit(st, PS[k])
      \* free to vary
      G == TLCEval(SelectSeq(F, LAMBDA k : ~lim(k)))
      simple == ties = {}
      onetie == Cardinality(ties) = 1 /\ \A p \in tied : p \notin st.H /\ ~AtLimit(st, p)
      X(M, j, k) == M[PS[j]][PS[k]]
      Prod(M1, M2, ix, j, k) == SumSeq([l \in 1..Len(ix) |-> Mul(X(M1, j, ix[l]), X(M2, ix[l], k))])
      small == 150
      inv(M, t, ix) == \A a \in 1..Len(ix) : \A b \in 1..Len(ix) :
                         LET x == Prod(M, o.H, ix, ix[a], ix[b])
                             y == IF a = b THEN t ELSE 0
                         IN Abs(x - y) <= small + (t \div 200)
      regular == o.mineig > 20000
      \* the observed information matrix is that of the model
      \* (one column, drawn by the event)
      i0 == F[1 + (e.col % Len(F))]
      HM == TLCEval(HessCol(st, PS, PS[i0]))
      slack == TLCEval(20000 + Div(20000, o.hs))
      HessOk == F = <<>> \/ \A j \in 1..Len(F) : ~IsNum(HM[F[j]]) \/
                     Abs(X(o.H, F[j], i0) - Div(HM[F[j]], o.hs)) <= slack
      ZeroOut(M, ok) == \A j \in 1..n : \A k \in 1..n : (j \in ok /\ k \in ok) \/ Abs(X(M, j, k)) <= 5
      set(ix) == {ix[i] : i \in 1..Len(ix)}
      \* the covariance without regard to limits
      Uok == ZeroOut(o.U, set(F)) /\ (regular /\ o.ut >= 2000 => inv(o.U, o.ut, F))
      Cok == IF simple THEN ZeroOut(o.C, set(G)) /\ (regular /\ o.greg > 20000 /\ o.ct >= 2000 => inv(o.C, o.ct, G))
             ELSE IF onetie /\ regular
             THEN LET c == st.cons[CHOOSE i \in ties : TRUE]
                      ip == CHOOSE k \in 1..n : PS[k] = c.p   iq == CHOOSE k \in 1..n : PS[k] = c.q
                  IN \* no variance across the tie, and otherwise the inverse
                     /\ ZeroOut(o.C, set(G))
                     /\ \A k \in 1..n : Abs(X(o.C, ip, k) - X(o.C, iq, k)) <= 20
             ELSE TRUE
      \* the sandwich
      Half(j, k) == SumSeq([l \in 1..Len(F) |-> Mul(X(o.U, j, F[l]), X(o.B, F[l], k))])
      UB == TLCEval([j \in 1..n |-> TLCEval([k \in 1..n |-> IF j \in set(F) /\ k \in set(F) THEN Half(j, k) ELSE 0])])
      UBU(j, k) == SumSeq([l \in 1..Len(F) |-> Mul(UB[j][F[l]], X(o.U, F[l], k))])
      Rok == ZeroOut(o.R, set(F)) /\ (o.rf >= 10000 /\ o.rf < 300 * One =>
               \A i \in 1..Len(F) : \A j \in 1..Len(F) :
                 Abs(UBU(F[i], F[j]) - Mul(o.rf, X(o.R, F[i], F[j]))) <= 100 + Mul(2000, o.rf))
      \* standard errors and t statistics
      \* (o.var: the observed variances)
      Se(se, v) == IF v < -20 THEN TRUE ELSE IF ~IsNum(v) \/ v > 400 * One \/ v < 100 THEN TRUE
                   ELSE IsNum(se) /\ CloseRel(Mul(se, se), v, 2000)
      Tt(t, se, p) == IsNum(se) /\ se > 2000 /\ se < 40 * One /\ IsNum(t) /\ Abs(t) < 40 * One => CloseRel(Mul(t, se), st.V[p] - st.N[p], 2000)
      free(k) == k \in set(G) /\ PS[k] \notin tied
  IN <<<<"parameter values after the call", ValsOk(st, o)>>,
       <<"the parameter values are exactly as before", o.same>>,
       <<"the last parameter is left where the differences took it", ~o.stepped>>>>
     \o (IF ~Moderate(st.V) \/ n = 0 \/ o.wild THEN <<>> ELSE
     <<<<"information matrix", o.hs >= 2000 => HessOk>>,
       <<"covariance is the inverse of the information matrix", Uok>>,
       <<"covariance with binding constraints taken out", Cok>>,
       <<"robust covariance is the sandwich", Rok>>,
       <<"standard errors", \A k \in 1..n : free(k) => Se(o.se[PS[k]], o.var[PS[k]])>>,
       <<"robust standard errors", \A k \in 1..n : free(k) => Se(o.rse[PS[k]], o.rvar[PS[k]])>>,
       <<"t statistics", \A k \in 1..n : free(k) => Tt(o.t[PS[k]], o.se[PS[k]], PS[k])>>,
       <<"robust t statistics", \A k \in 1..n : free(k) => Tt(o.rt[PS[k]], o.rse[PS[k]], PS[k])>>,
       <<"held-fast parameters have no standard error", \A p \in st.H \cap DOMAIN o.se : o.se[p] \in {NaN, 0} /\ ~o.fin[p]>>,
       <<"held-fast parameters have no robust standard error", \A p \in st.H \cap DOMAIN o.se : o.rse[p] \in {NaN, 0}>>,
       <<"notes of constraints", o.notes => \A k \in 1..n :
            LET p == PS[k]  c == IF p \in DOMAIN o.note THEN o.note[p] ELSE "" IN
            IF p \in st.H THEN c = "fixed" ELSE IF lim(k) \/ p \in tied THEN c = "binding" ELSE c = "">>,
       <<"likelihood ratios where there is no t statistic", e.lr =>
            \A k \in 1..Len(F) : LET p == PS[F[k]] IN
              (~o.fin[p] /\ Moderate([st.V EXCEPT ![p] = st.N[p]])) =>
                 LET a == LLAt(S, D, st.V)  b == LLAt(S, D, [st.V EXCEPT ![p] = st.N[p]])
                 IN (IsNum(a) /\ IsNum(b)) => CloseRel(o.lr[p], a - b, 3 * TolL)>>>>)

\* likelihood ratios asked for
JudgeLR(st, e, o) ==
  LET ns == IF e.names = <<>> THEN {p \in SpecNames(st.S) : p \notin st.H \/ e.held}
            ELSE IF e.one THEN ToSet(e.names) ELSE {p \in ToSet(e.names) : p \notin st.H \/ e.held}
      ref(p) == IF e.hasref THEN e.ref ELSE st.N[p]
      W(p) == [st.V EXCEPT ![p] = ref(p)]
  IN <<<<"parameter values after the call", ValsOk(st, o)>>,
       <<"the parameter values are exactly as before", o.same>>>>
     \o (IF ~Moderate(st.V) THEN <<>> ELSE <<
       <<"likelihood ratios", \A p \in ns : p \in DOMAIN o.lr /\ (Moderate(W(p)) =>
                LET a == LLAt(st.S, st.D, st.V)  b == LLAt(st.S, st.D, W(p))
                IN (IsNum(a) /\ IsNum(b)) => CloseRel(o.lr[p], a - b, 3 * TolL))>>,
       <<"no likelihood ratio of held-fast parameters", \A p \in DOMAIN o.lr : p \in ns \/ p \notin SpecNames(st.S) \/ o.lr[p] = NaN>>>>)

JudgeC(st, e) ==
  IF e.op \in {"cov", "lr"} THEN
     IF e.err # "" THEN (IF Moderate(st.V) THEN <<<<"raised " \o e.err, FALSE>>>> ELSE <<>>)
     ELSE IF e.op = "cov" THEN JudgeCov(st, e, e.obs) ELSE JudgeLR(st, e, e.obs)
  ELSE IF e.op = "cons" THEN (IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>> ELSE <<<<"parameter values", ValsOk(st, e.obs)>>>>)
  ELSE Judge(st, e)
=============================================================================

------------------------------ MODULE Mixture ------------------------------
(* A latent class model: the mixture of class models over the same data, with   *)
(* weights given by a class membership model, and one set of parameters.         *)
(*                                                                               *)
(* state:  K  sequence of class specifications (class k has the code k)           *)
(*         M  specification of the membership model: alternatives 1..Len(K),      *)
(*            co terms only                                                       *)
(*         D  data; V, H, N  values, held-fast names and null values of all names  *)
(*         ev  full-sample evaluations since data or specification changed         *)
EXTENDS Lifecycle

XNames(st) == UNION {SpecNames(st.K[k]) : k \in 1..Len(st.K)} \cup SpecNames(st.M)
XSeq(st) == SelectSeq(AllNames, LAMBDA p : p \in XNames(st))
\* the data as the membership model sees them: every class is there for every case
MData(st) == [st.D EXCEPT !.av = [c \in 1..st.D.n |-> [k \in 1..Len(st.K) |-> 1]]]

\* the record of a case, of the same form as Choice!Case for the alternatives
MixCase(st, V, PS, c) ==
  LET nk == Len(st.K)
      RM == TLCEval(Case(st.M, MData(st), V, PS, c))
      RK == TLCEval([k \in 1..nk |-> TLCEval(Case(st.K[k], st.D, V, PS, c))])
      A  == NAlt(st.K[1])
      Alt(a) ==
        LET ks == SelectSeq([k \in 1..nk |-> k], LAMBDA k : RK[k].ok[a])
            l  == TLCEval([i \in 1..Len(ks) |-> RM.lp[ks[i]] + RK[ks[i]].lp[a]])
            m  == MaxOf(l)
            e  == TLCEval([i \in 1..Len(ks) |-> Exp(l[i] - m)])
            se == SumSeq(e)
        IN IF ks = <<>> THEN [ok |-> FALSE, p |-> 0, lp |-> NInf, dlp |-> [j \in 1..Len(PS) |-> 0]]
           ELSE [ok |-> TRUE, p |-> Exp(m + Ln(se)), lp |-> m + Ln(se),
                 dlp |-> TLCEval([j \in 1..Len(PS) |->
                     SumSeq([i \in 1..Len(ks) |-> Mul(Div(e[i], se), RM.dlp[ks[i]][j] + RK[ks[i]].dlp[a][j])])])]
      X == TLCEval([a \in 1..A |-> TLCEval(Alt(a))])
  IN [ok |-> [a \in 1..A |-> X[a].ok], p |-> [a \in 1..A |-> X[a].p],
      lp |-> [a \in 1..A |-> X[a].lp], dlp |-> [a \in 1..A |-> X[a].dlp],
      pm |-> [k \in 1..nk |-> RM.p[k]],
      dpm |-> [k \in 1..nk |-> [j \in 1..Len(PS) |-> Mul(RM.p[k], RM.dlp[k][j])]]]

XAll(st, V, PS) == [c \in 1..st.D.n |-> MixCase(st, V, PS, c)]
XLL(st, V) == LET Rs == TLCEval(XAll(st, V, <<>>)) IN TotalLL(st.K[1], st.D, Rs, All(st.D.n))

XRec(st, V, must) == LET w == ~Moderate(V)
                     IN [st EXCEPT !.ev = Append(@, [ll |-> IF w THEN 0 ELSE XLL(st, V), wild |-> w, must |-> must])]
XExt(st, s2) == LET ns == XNames(s2) \ DOMAIN st.V
                IN [s2 EXCEPT !.V = [p \in DOMAIN st.V \cup ns |-> IF p \in ns THEN Default(p) ELSE st.V[p]],
                              !.N = [p \in DOMAIN st.V \cup ns |-> IF p \in ns THEN Default(p) ELSE st.N[p]], !.ev = <<>>]

ApplyX(st, e) ==
  CASE e.op = "xnew" -> [K |-> e.K, M |-> e.M, D |-> e.D, V |-> e.V, H |-> {}, ev |-> <<>>, W |-> e.V, L |-> [p \in {} |-> 0],
                         N |-> [p \in DOMAIN e.V |-> Default(p)]]
    [] e.op = "set" -> [st EXCEPT !.V = IF e.how = "value" THEN Upd(@, e.v)
                                        ELSE IF e.how = "null" THEN UpdFree(@, st.H, st.N)
                                        ELSE UpdFree(@, st.H, e.v)]
    \* a value set in one of the class models or the membership model holds everywhere
    [] e.op = "kset" -> [st EXCEPT !.V = Upd(@, e.v)]
    [] e.op = "nullv" -> [st EXCEPT !.N = Upd(@, e.v)]
    [] e.op = "lock" -> [st EXCEPT !.V = Upd(@, e.v), !.N = Upd(@, e.v), !.H = @ \cup DOMAIN e.v]
    [] e.op = "hold" -> [st EXCEPT !.H = IF e.on THEN @ \cup {e.p} ELSE @ \ {e.p}]
    [] e.op = "data" -> [st EXCEPT !.D = e.D, !.ev = <<>>]
    [] e.op = "kedit" -> XExt(st, IF e.cls = 0 THEN [st EXCEPT !.M = EditS(@, e)] ELSE [st EXCEPT !.K[e.cls] = EditS(@, e)])
    [] e.op = "xeval" -> LET v == UpdFree(st.V, st.H, e.x)
                             s2 == [st EXCEPT !.V = v]
                         IN IF e.via \in {"loglike", "neg_loglike", "loglike2", "d_loglike", "loglike2_bhhh", "bhhh"} /\ e.start = 0 /\ e.stop = -1 /\ e.step = 1
                            THEN XRec(s2, v, TRUE) ELSE s2
    [] e.op = "stat" -> IF e.which = "null" THEN XRec(st, UpdFree(st.V, st.H, st.N), FALSE) ELSE st
    [] e.op = "est" -> LET v == IF "obs" \in DOMAIN e /\ "vals" \in DOMAIN e.obs THEN Upd(st.V, e.obs.vals) ELSE st.V
                       IN [st EXCEPT !.W = st.V, !.V = v, !.ev = <<[ll |-> 0, wild |-> TRUE, must |-> FALSE]>>]

XVals(st, o) == XNames(st) \subseteq DOMAIN o.vals /\ \A p \in DOMAIN o.vals \cap DOMAIN st.V : Close(o.vals[p], st.V[p], 2)

JudgeX(st, e) ==
  LET o == e.obs
      has(f) == f \in DOMAIN o
      PS == TLCEval(IF has("dll") \/ has("bhhh") \/ has("dp") THEN XSeq(st) ELSE <<>>)
      Rs == TLCEval(XAll(st, st.V, PS))
      S == st.K[1]  D == st.D
      cs == IF e.op = "xeval" THEN TLCEval(SliceOf(D, e)) ELSE <<>>
      is == TLCEval(InSc(D, cs))
      A == NAlt(S)
      Held(p) == p \in st.H
      TolG == 3 * TolL
      \* along a held-fast parameter zero, or the derivative
      Der(p, x, y) == CloseRel(x, y, TolG) \/ (Held(p) /\ x = 0)
      LLok == CloseRel(o.ll, TotalLL(S, D, Rs, is), 2 * TolL)
      dLLok == /\ XNames(st) \subseteq DOMAIN o.dll
               /\ \A p \in DOMAIN o.dll \ XNames(st) : o.dll[p] = 0
               /\ \A j \in 1..Len(PS) : Der(PS[j], o.dll[PS[j]], Score(S, D, Rs, is, j))
      Bok == /\ XNames(st) \subseteq DOMAIN o.bhhh
             /\ \A j \in 1..Len(PS) : \A l \in 1..Len(PS) :
                  \/ CloseRel(o.bhhh[PS[j]][PS[l]], BHHH(S, D, Rs, is, j, l), TolG)
                  \/ (Held(PS[j]) \/ Held(PS[l])) /\ o.bhhh[PS[j]][PS[l]] = 0
      Pok == /\ Len(o.p) = Len(is)
             /\ \A i \in 1..Len(is) : Len(o.p[i]) = A /\ \A a \in 1..A : Close(o.p[i][a], Rs[is[i]].p[a], 2 * TolP)
      PMok == /\ Len(o.pm) = Len(is)
              /\ \A i \in 1..Len(is) : Len(o.pm[i]) = Len(st.K) /\ \A k \in 1..Len(st.K) : Close(o.pm[i][k], Rs[is[i]].pm[k], 2 * TolP)
      DPok == /\ Len(o.dp) = Len(is)
              /\ \A i \in 1..Len(is) : \A a \in 1..A : \A j \in 1..Len(PS) :
                   Der(PS[j], o.dp[i][a][PS[j]], IF Rs[is[i]].ok[a] THEN Mul(Rs[is[i]].p[a], Rs[is[i]].dlp[a][j]) ELSE 0)
      vals == <<<<"values of the mixture", XVals(st, o)>>,
                <<"the class and membership models have the values of the mixture",
                   "mvals" \in DOMAIN o => \A i \in 1..Len(o.mvals) : \A p \in DOMAIN o.mvals[i] \cap DOMAIN st.V : Close(o.mvals[i][p], st.V[p], 2)>>>>
  IN IF e.op = "kedit" THEN IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>> ELSE <<>>
     ELSE IF ~Moderate(st.V) THEN <<>>
     ELSE IF e.op = "est" /\ ~Moderate(st.W) THEN <<>>
     ELSE IF e.op = "est" /\ e.err # "" /\ o.lost THEN <<>>
     ELSE IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>>
     ELSE CASE e.op \in {"xnew", "set", "kset", "nullv", "lock", "hold", "data"} -> vals
       [] e.op = "xeval" -> vals
            \o (IF has("ll") THEN <<<<"log likelihood of the mixture", LLok>>>> ELSE <<>>)
            \o (IF has("dll") THEN <<<<"score of the mixture", dLLok>>>> ELSE <<>>)
            \o (IF has("bhhh") THEN <<<<"outer products of the mixture", Bok>>>> ELSE <<>>)
            \o (IF has("p") THEN <<<<"probabilities of the mixture", Pok>>>> ELSE <<>>)
            \o (IF has("pm") THEN <<<<"class membership probabilities", PMok>>>> ELSE <<>>)
            \o (IF has("dp") THEN <<<<"derivatives of the probabilities", DPok>>>> ELSE <<>>)
            \o (IF has("kll") THEN <<<<"log likelihoods of the classes",
                   \A k \in 1..Len(st.K) : CloseRel(o.kll[k], LLAt(st.K[k], D, st.V), 2 * TolL)>>>> ELSE <<>>)
       [] e.op = "stat" -> vals \o
            (CASE e.which = "null" -> <<<<"log likelihood at null values", st.ev[Len(st.ev)].wild \/ CloseRel(o.ll, st.ev[Len(st.ev)].ll, 2 * TolL)>>>>
               [] e.which = "best" -> IF \E i \in 1..Len(st.ev) : st.ev[i].wild THEN <<>>
                    ELSE LET best == FoldSeq(LAMBDA x, y : IF x.must THEN Max2(x.ll, y) ELSE y, NInf, st.ev)
                         IN <<<<"best log likelihood is the highest", (best # NInf => o.has) /\ (o.has => CloseRel(o.ll, Max2(o.ll, best), 2 * TolL))>>,
                              <<"best log likelihood was reached", o.has => \E i \in 1..Len(st.ev) : CloseRel(o.ll, st.ev[i].ll, 2 * TolL)>>>>)
       [] e.op = "est" -> LET a == XLL(st, st.W)  b == XLL(st, st.V)
            IN <<<<"held-fast parameters keep their values", \A p \in st.H : Abs(st.V[p] - st.W[p]) <= 1>>,
                 <<"ends no lower than it started", o.conv => ~IsNum(a) \/ (IsNum(b) /\ b >= a - Max2(300, Mul(300, Abs(a))))>>,
                 <<"the reported parameters are those of the mixture", \A p \in XNames(st) : p \in DOMAIN o.x /\ Close(o.x[p], o.vals[p], 2)>>,
                 <<"the reported log likelihood is that of the mixture", IsNum(o.ll) => CloseRel(o.ll, b, 2 * TolL)>>>>
=============================================================================

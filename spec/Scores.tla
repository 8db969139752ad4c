------------------------------ MODULE Scores ------------------------------
(* Scores and summaries: ranks of alternatives, the share of choices among the  *)
(* top k, log loss, and tables of what is chosen and available.                  *)
(* state: that of Lifecycle (the model and the data that are asked about)         *)
EXTENDS Lifecycle

ApplyK(st, e) == CASE e.op \in {"topk", "logloss"} -> [st EXCEPT !.V = StartV(st, e)]
                   [] OTHER -> Apply(st, e)

-----------------------------------------------------------------------------
\* ranks: those of a row are 1..n, better ones come first
IsRanking(r, v) == /\ Len(r) = Len(v) /\ {r[i] : i \in 1..Len(r)} = 1..Len(v)
                   /\ \A i \in 1..Len(v) : \A j \in 1..Len(v) : v[i] > v[j] => r[i] < r[j]
JudgeRank(e, o) ==
  <<<<"ranks are a ranking of every row", Len(o.r) = Len(e.m) /\ \A i \in 1..Len(e.m) : IsRanking(o.r[i], e.m[i])>>,
    <<"ranks have the form of the probabilities", o.form>>,
    <<"the probabilities are as before", o.kept>>>>

\* ranks within groups of rows
JudgeRankIn(e, o) ==
  LET n == Len(e.g)
      grp(i) == {j \in 1..n : e.g[j] = e.g[i]}
      before(j, i) == e.v[j] > e.v[i] \/ (e.v[j] = e.v[i] /\ j < i)
      strictly(j, i) == e.v[j] > e.v[i]
      lo(i) == 1 + Cardinality({j \in grp(i) : strictly(j, i)})
      hi(i) == Cardinality({j \in grp(i) : ~strictly(i, j)})
  IN <<<<"ranks within groups", Len(o.r) = n /\ \A i \in 1..n :
            IF e.perturb THEN o.r[i] >= lo(i) /\ o.r[i] <= hi(i) ELSE o.r[i] = 1 + Cardinality({j \in grp(i) : before(j, i)})>>,
       <<"every place in a group is taken once", \A i \in 1..n : \A j \in 1..n : (i # j /\ e.g[i] = e.g[j]) => o.r[i] # o.r[j]>>,
       <<"the output column has the ranks", e.out => o.col = o.r>>,
       <<"the data are as before", o.kept>>>>

\* the share of the choices among the first k
Share(m, ch, k) ==
  LET n == Len(m)
      tot == SumSeq([i \in 1..n |-> SumSeq(ch[i])])
      hit == SumSeq([i \in 1..n |-> SumSeq([a \in 1..Len(m[i]) |-> IF m[i][a] <= k THEN ch[i][a] ELSE 0])])
  IN IF tot = 0 THEN NaN ELSE Div(hit, tot)
JudgeAcc(e, o) ==
  <<<<"share of the choices among the first k", Len(o.s) = Len(e.ks) /\ \A i \in 1..Len(e.ks) :
         LET s == Share(e.m, e.ch, e.ks[i]) IN IF s = NaN THEN TRUE ELSE Close(o.s[i], s, 3)>>>>

\* the same for the probabilities of a model
JudgeTopk(st, e, o) ==
  LET S == st.S  D == st.D
      Rs == TLCEval([c \in 1..D.n |-> Case(S, D, st.V, <<>>, c)])
      A == NAlt(S)
      better(c, a) == Cardinality({b \in 1..A : Rs[c].p[b] > Rs[c].p[a] + 3 * TolP})
      worst(c, a) == Cardinality({b \in 1..A : b # a /\ Rs[c].p[b] >= Rs[c].p[a] - 3 * TolP})
      w(c, a) == IF D.ch[c][a] > 0 THEN Mul(D.wt[c], D.ch[c][a]) ELSE 0
      tot == SumSeq([c \in 1..D.n |-> SumSeq([a \in 1..A |-> w(c, a)])])
      least(k) == SumSeq([c \in 1..D.n |-> SumSeq([a \in 1..A |-> IF 1 + worst(c, a) <= k THEN w(c, a) ELSE 0])])
      most(k) == SumSeq([c \in 1..D.n |-> SumSeq([a \in 1..A |-> IF 1 + better(c, a) <= k THEN w(c, a) ELSE 0])])
      usable == \A c \in 1..D.n : Rs[c].ok[Root(S)]
  IN <<<<"parameter values after the call", ValsOk(st, o)>>,
       <<"share of the choices among the k most probable", (tot > 0 /\ usable /\ Moderate(st.V)) =>
            (Len(o.s) = Len(e.ks) /\ \A i \in 1..Len(e.ks) :
               IsNum(o.s[i]) /\ o.s[i] >= Div(least(e.ks[i]), tot) - 5 /\ o.s[i] <= Div(most(e.ks[i]), tot) + 5)>>>>

JudgeLoss(st, e, o) ==
  LET ll == LLAt(st.S, st.D, st.V)
      tot == Mul(st.D.norm, SumSeq([c \in 1..st.D.n |-> st.D.wt[c]]))
      Rs == TLCEval([c \in 1..st.D.n |-> Case(st.S, st.D, st.V, <<>>, c)])
  IN <<<<"parameter values after the call", ValsOk(st, o)>>,
       <<"log loss is per unit of weight", (Moderate(st.V) /\ NoBad(st, Rs, All(st.D.n)) /\ IsNum(ll) /\ tot > 0) => CloseRel(o.ll, -Div(ll, tot), TolL)>>>>

-----------------------------------------------------------------------------
\* tables of choices and availabilities
\* the alternatives below a node
RECURSIVE Under(_, _)
Under(S, i) == IF i <= NAlt(S) THEN {i} ELSE UNION {Under(S, Nest(S, i).ch[k]) : k \in 1..Len(Nest(S, i).ch)}
\* does no alternative get to a node along two paths?
RECURSIVE Plain(_, _)
Plain(S, i) == IF i <= NAlt(S) THEN TRUE
               ELSE /\ \A k \in 1..Len(Nest(S, i).ch) : Plain(S, Nest(S, i).ch[k])
                    /\ \A k, l \in 1..Len(Nest(S, i).ch) : k # l => Under(S, Nest(S, i).ch[k]) \cap Under(S, Nest(S, i).ch[l]) = {}

JudgeSummary(st, e, o) ==
  LET S == st.S  D == st.D  A == NAlt(S)
      hasav == ~(e.noav /\ e.ds)
      hasch == ~(e.noch /\ e.ds)
      wt == ~(e.nowt /\ e.ds)
      W(c) == IF wt THEN D.wt[c] ELSE One
      av(c, a) == IF D.av[c][a] # 0 THEN One ELSE 0
      Cu(U) == SumSeq([c \in 1..D.n |-> SumSeq([a \in 1..A |-> IF a \in U THEN D.ch[c][a] ELSE 0])])
      Cw(U) == SumSeq([c \in 1..D.n |-> SumSeq([a \in 1..A |-> IF a \in U THEN Mul(W(c), D.ch[c][a]) ELSE 0])])
      Au(U) == SumSeq([c \in 1..D.n |-> IF \E a \in U : av(c, a) # 0 THEN One ELSE 0])
      Aw(U) == SumSeq([c \in 1..D.n |-> IF \E a \in U : av(c, a) # 0 THEN W(c) ELSE 0])
      Nu(a) == SumSeq([c \in 1..D.n |-> IF av(c, a) = 0 THEN D.ch[c][a] ELSE 0])
      Nw(a) == SumSeq([c \in 1..D.n |-> IF av(c, a) = 0 THEN Mul(W(c), D.ch[c][a]) ELSE 0])
      nodes == IF e.graph THEN 1..NNode(S) - 1 ELSE 1..A
      code(i) == ToString(IF i <= A THEN S.alts[i] ELSE Nest(S, i).code)
      T == o.t
      R(i) == T[code(i)]
      same(x, y) == Close(x, y, 3)
      \* a column under one name or two
      Col(r, one, w, u, xw, xu) ==
         IF w \in DOMAIN r THEN u \in DOMAIN r /\ same(r[w], xw) /\ same(r[u], xu) ELSE one \in DOMAIN r /\ same(r[one], xu)
      all == 1..A
      none == hasav => \A a \in 1..A : Nu(a) = 0
      N1(r, xw, xu) == IF "nw" \in DOMAIN r THEN "nu" \in DOMAIN r /\ same(r.nw, xw) /\ same(r.nu, xu)
                       ELSE IF "n" \in DOMAIN r THEN same(r.n, xu) ELSE xu = 0
      sum(f(_)) == SumSeq([a \in 1..A |-> f(a)])
      split == \E i \in nodes : "cw" \in DOMAIN R(i)
  IN <<<<"every alternative and nest has a row", {code(i) : i \in nodes} \cup {"T"} = DOMAIN T>>>>
     \o (IF {code(i) : i \in nodes} \cup {"T"} # DOMAIN T THEN <<>> ELSE
       <<<<"alternatives have their names", \A a \in 1..A : R(a).name = "a" \o code(a)>>>>
       \o (IF ~hasch THEN <<<<"no choices are counted where there are none", \A i \in nodes : {"c", "cw", "cu", "n", "nw", "nu"} \cap DOMAIN R(i) = {}>>>>
        ELSE
        <<<<"choices are counted once for every alternative", \A i \in nodes : Plain(S, i) => Col(R(i), "c", "cw", "cu", Cw(Under(S, i)), Cu(Under(S, i)))>>,
          <<"weights show where they make a difference", ~split => \A a \in 1..A : Abs(Cw({a}) - Cu({a})) <= 3>>,
          <<(IF e.graph /\ ~Plain(S, NNode(S)) THEN "choices that reach the root along two paths are counted once in total"
             ELSE "choices are counted once in total"), Col(T["T"], "c", "cw", "cu", Cw(all), Cu(all))>>>>
        \o (IF hasav THEN
        <<<<"choices that are not available are counted", \A a \in 1..A : N1(R(a), Nw(a), Nu(a))>>,
          <<(IF e.graph THEN "choices that are not available are counted in total with a tree"
             ELSE "choices that are not available are counted in total"), N1(T["T"], sum(Nw), sum(Nu))>>>> ELSE <<>>))
     \o (IF ~hasav THEN <<<<"no availabilities are counted where there are none", \A i \in nodes : {"a", "aw", "au"} \cap DOMAIN R(i) = {}>>>>
         ELSE IF ~hasch THEN <<<<"availabilities are counted", \A i \in nodes : Col(R(i), "a", "aw", "au", Aw(Under(S, i)), Au(Under(S, i)))>>>>
         ELSE <<<<"availabilities are counted", \A i \in nodes : Col(R(i), "a", "aw", "au", Aw(Under(S, i)), Au(Under(S, i)))>>>>))
     \o <<<<"the data are as before", o.kept>>>>

JudgeK(st, e) ==
  IF e.op \notin {"rank", "rankin", "acc", "topk", "logloss", "summary"} THEN Judge(st, e)
  ELSE IF e.err # "" THEN (IF e.op \in {"topk", "logloss"} /\ ~Moderate(st.V) THEN <<>> ELSE <<<<"raised " \o e.err, FALSE>>>>)
  ELSE CASE e.op = "rank" -> JudgeRank(e, e.obs)
         [] e.op = "rankin" -> JudgeRankIn(e, e.obs)
         [] e.op = "acc" -> JudgeAcc(e, e.obs)
         [] e.op = "topk" -> JudgeTopk(st, e, e.obs)
         [] e.op = "logloss" -> JudgeLoss(st, e, e.obs)
         [] e.op = "summary" -> JudgeSummary(st, e, e.obs)
=============================================================================

------------------------------ MODULE Doctor ------------------------------
(* Checks of the data of a model, and their repairs.                            *)
(* state: that of Lifecycle; data may have faults: choices of what is not          *)
(* available or of no size, cases without a choice, and values that are missing     *)
(* (NaN).  A check finds exactly the faults of its kind, a repair removes just       *)
(* them, and nothing else changes.                                                  *)
EXTENDS Lifecycle

Chosen(D, c, a) == D.ch[c][a] > 0
NoSize(S, D, c, a) == HasQ(S) /\ \A k \in 1..Len(S.q) : D.ca[c][a][S.q[k].x] = 0
Cav(S, D) == [c \in 1..D.n |-> [a \in 1..NAlt(S) |-> Chosen(D, c, a) /\ D.av[c][a] = 0]]
Czq(S, D) == [c \in 1..D.n |-> [a \in 1..NAlt(S) |-> Chosen(D, c, a) /\ D.av[c][a] # 0 /\ NoSize(S, D, c, a)]]
Noch(S, D) == [c \in 1..D.n |-> D.haswt /\ SumSeq(D.ch[c]) = 0 /\ IsNum(D.wt[c]) /\ D.wt[c] > 0]
Nanw(D) == [c \in 1..D.n |-> D.haswt /\ D.wt[c] = NaN]
Missing(D, k) == {c \in 1..D.n : D.co[c][k] = NaN}
\* values that are all the same
LowVar(D, k) == LET v == {c \in 1..D.n : D.co[c][k] # NaN}
                IN Cardinality(v) >= 2 /\ Cardinality({D.co[c][k] : c \in v}) = 1
NCo(D) == Len(D.co[1])

\* what a check reports: for every row of the report the number of faults and the first of them
RowsOf(D, F(_)) == SelectSeq([i \in 1..D.n |-> i - 1], LAMBDA i : F(Ord(D)[i + 1]))
Report2(D, F(_), vb) == [n |-> Len(RowsOf(D, F)), rows |-> First(RowsOf(D, F), Min2(vb, Len(RowsOf(D, F))))]
Diag(S, D, which, vb) ==
  CASE which \in {"cav", "czq"} ->
         LET M == TLCEval(IF which = "cav" THEN Cav(S, D) ELSE Czq(S, D))
             bad == {a \in 1..NAlt(S) : \E c \in 1..D.n : M[c][a]}
             code(x) == {a \in bad : ToString(S.alts[a]) = x}
         IN [x \in {ToString(S.alts[a]) : a \in bad} |-> LET a == CHOOSE b \in code(x) : TRUE IN Report2(D, LAMBDA c : M[c][a], vb)]
    [] which \in {"noch", "nanw"} ->
         LET M == TLCEval(IF which = "noch" THEN Noch(S, D) ELSE Nanw(D))
         IN [x \in IF \E c \in 1..D.n : M[c] THEN {which} ELSE {} |-> Report2(D, LAMBDA c : M[c], vb)]
    [] which = "nanco" ->
         LET bad == SelectSeq([k \in 1..NCo(D) |-> k], LAMBDA k : Missing(D, k) # {})
             ks == First(bad, Min2(vb, Len(bad)))
         IN [x \in {"c" \o ToString(ks[i]) : i \in 1..Len(ks)} |->
               [n |-> Cardinality(Missing(D, CHOOSE k \in 1..NCo(D) : "c" \o ToString(k) = x)), rows |-> <<>>]]
    [] which = "lowvar" ->
         LET bad == SelectSeq([k \in 1..NCo(D) |-> k], LAMBDA k : LowVar(D, k))
         IN [x \in IF bad = <<>> THEN {} ELSE {"lowvar"} |-> [n |-> Len(bad), rows |-> First(bad, Min2(vb, Len(bad)))]]

\* weights scaled to an average of one; weights that are part of the choices come out of them
Scaled(D) ==
  LET T == TLCEval([c \in 1..D.n |-> SumSeq(D.ch[c])])
      out == \E c \in 1..D.n : Abs(T[c] - One) > 1
      ch2 == IF ~out THEN D.ch ELSE [c \in 1..D.n |-> IF T[c] = 0 THEN D.ch[c] ELSE [a \in 1..Len(D.ch[c]) |-> Div(D.ch[c][a], T[c])]]
      w2 == TLCEval(IF ~out THEN D.wt ELSE [c \in 1..D.n |-> IF D.wt[c] = NaN THEN NaN ELSE Mul(D.wt[c], T[c])])
      s == SumSeq([c \in 1..D.n |-> IF w2[c] = NaN THEN 0 ELSE w2[c]]) \div D.n
  IN IF s <= 0 THEN D ELSE [D EXCEPT !.ch = ch2, !.wt = TLCEval([c \in 1..D.n |-> IF w2[c] = NaN THEN NaN ELSE Div(w2[c], s)]), !.norm = Mul(@, s)]
Scalable(D) == SumSeq([c \in 1..D.n |-> IF D.wt[c] = NaN THEN 0 ELSE Mul(D.wt[c], SumSeq(D.ch[c]))]) > 0

Unchoose(D, M) == [D EXCEPT !.ch = TLCEval([c \in 1..D.n |-> TLCEval([a \in 1..Len(D.ch[c]) |-> IF M[c][a] THEN 0 ELSE D.ch[c][a]])])]
Avail(D, M) == [D EXCEPT !.av = TLCEval([c \in 1..D.n |-> TLCEval([a \in 1..Len(D.av[c]) |-> IF M[c][a] THEN 1 ELSE D.av[c][a]])])]
Repaired(S, D, which, how) ==
  IF how = "" THEN D
  ELSE CASE which = "cav" -> IF how = "+" THEN Avail(D, TLCEval(Cav(S, D))) ELSE Unchoose(D, TLCEval(Cav(S, D)))
         [] which = "czq" -> Unchoose(D, TLCEval(Czq(S, D)))
         [] which = "noch" -> LET M == TLCEval(Noch(S, D))
                                  D2 == [D EXCEPT !.wt = [c \in 1..D.n |-> IF M[c] THEN 0 ELSE D.wt[c]]]
                              IN IF \A c \in 1..D.n : ~M[c] THEN D ELSE IF how = "*" THEN Scaled(D2) ELSE D2
         [] which = "nanw" -> [D EXCEPT !.wt = [c \in 1..D.n |-> IF @[c] = NaN THEN 0 ELSE @[c]]]
         [] which = "nanco" -> [D EXCEPT !.co = [c \in 1..D.n |-> [k \in 1..NCo(D) |-> IF @[c][k] = NaN THEN 0 ELSE @[c][k]]]]
         [] OTHER -> D
Checks == <<"czq", "cav", "noch", "nanw", "nanco", "lowvar">>
\* one check after the other: the data before the i-th
RECURSIVE Before(_, _, _, _)
Before(S, D, e, i) == IF i = 1 THEN D ELSE Repaired(S, TLCEval(Before(S, D, e, i - 1)), Checks[i - 1], e.how[Checks[i - 1]])
WhichOf(e) == IF e.which = "all" THEN {Checks[i] : i \in 1..Len(Checks)} ELSE {e.which}
Ix(w) == CHOOSE i \in 1..Len(Checks) : Checks[i] = w
Bare(e) == e.on = "dfs" /\ e.no # ""                     \* (a collection that lacks a part; the data of the model stay)
Needs(w) == CASE w = "cav" -> {"av", "ch"} [] w = "czq" -> {"av", "ch", "ca"} [] w = "noch" -> {"ch", "wt"} [] w = "nanw" -> {"wt"} [] OTHER -> {"co"}
Lacks(e, w) == Bare(e) /\ e.no \in Needs(w)
DataFor(st, e, w) == IF e.which = "all" THEN Before(st.S, st.P, e, Ix(w)) ELSE st.P
After(st, e) == IF e.which = "all" THEN Before(st.S, st.D, e, Len(Checks)) ELSE Repaired(st.S, st.D, e.which, e.how[e.which])

\* st.P: the data before the last event
ApplyD(st, e) ==
  IF e.op = "new" THEN Apply(st, e) @@ [P |-> e.D]
  ELSE IF e.op # "check" THEN LET s2 == Apply(st, e) IN [s2 EXCEPT !.P = s2.D]
  ELSE IF Bare(e) THEN [st EXCEPT !.P = st.D]
  ELSE [st EXCEPT !.P = st.D, !.D = TLCEval(After(st, e)), !.ev = IF After(st, e) # st.D THEN <<>>
                                                        \* (a repair that finds nothing may clear what is remembered)
                                                        ELSE IF e.on = "doctor" THEN [i \in 1..Len(@) |-> [@[i] EXCEPT !.must = FALSE]] ELSE @]

-----------------------------------------------------------------------------
Near2(x, y) == IF ~IsNum(x) \/ ~IsNum(y) THEN x = y ELSE CloseRel(x, y, 20)
SameM(o, d) == Len(o) = Len(d) /\ \A c \in 1..Len(d) : Len(o[c]) = Len(d[c]) /\ \A a \in 1..Len(d[c]) : Near2(o[c][a], d[c][a])
JudgeCheck(st, e, o) ==
  LET S == st.S  D == st.D
      star == ~Bare(e) /\ e.how["noch"] = "*" /\ "noch" \in WhichOf(e)
      lost == star /\ ~Scalable(D)                     \* (no weights are left)
  IN <<<<"the faults that are reported are those of the data", \A w \in WhichOf(e) :
          LET d == IF Lacks(e, w) THEN [x \in {} |-> 0] ELSE Diag(S, DataFor(st, e, w), w, e.verbose) IN
          IF d = [x \in {} |-> 0] THEN w \notin DOMAIN o.found
          ELSE w \in DOMAIN o.found /\ DOMAIN o.found[w] = DOMAIN d /\ \A x \in DOMAIN d : o.found[w][x].n = d[x].n /\ o.found[w][x].rows = d[x].rows>>,
       <<"no other faults are reported", DOMAIN o.found \subseteq WhichOf(e)>>,
       <<"availability after the check", o.av = D.av>>,
       <<"choices after the check", lost \/ SameM(o.ch, D.ch)>>,
       <<"weights after the check", lost \/ (D.haswt => Len(o.wt) = D.n /\ \A c \in 1..D.n : Near2(o.wt[c], D.wt[c]))>>,
       <<"scale of weights after the check", lost \/ (D.haswt => CloseRel(o.norm, D.norm, 20))>>,
       <<"data of cases after the check", \A k \in DOMAIN o.co : \A c \in 1..D.n :
            LET kk == CHOOSE j \in 1..NCo(D) : "c" \o ToString(j) = k IN o.co[k][c] = D.co[c][kk]>>,
       <<"the check returns what it was given", o.back>>>>

Whole(D) == (\A c \in 1..D.n : IsNum(D.wt[c])) /\ \A c \in 1..D.n : \A k \in 1..NCo(D) : IsNum(D.co[c][k])
Fine(S, D) == Whole(D) /\ \A c \in 1..D.n : \A a \in 1..NAlt(S) : ~(Cav(S, D)[c][a] \/ Czq(S, D)[c][a])
JudgeD(st, e) ==
  IF e.op = "check" THEN (IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>> ELSE JudgeCheck(st, e, e.obs))
  ELSE IF e.op \in {"eval", "stat"} /\ ~Fine(st.S, st.D) THEN <<>>
  ELSE Judge(st, e)
=============================================================================

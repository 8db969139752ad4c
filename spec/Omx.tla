------------------------------- MODULE Omx -------------------------------
(* A matrix file: matrices of one shape, look-ups as long as one of its      *)
(* sides, a mode.  Every request returns what was stored under the labels       *)
(* that it names; what cannot be is refused, and leaves everything as it was.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* m : name -> rows of values, k : name -> values
St0 == [sh |-> <<0, 0>>, m |-> <<>>, k |-> <<>>, ro |-> FALSE, file |-> FALSE]
Has(f, n) == n \in DOMAIN f
Names(f) == DOMAIN f
Put(f, n, v) == (n :> v) @@ f
Dims(v) == <<Len(v), Len(v[1])>>
Const(n, x) == [i \in 1..n |-> x]
Zeros(sh) == [i \in 1..sh[1] |-> Const(sh[2], 0)]
Square(st) == st.sh[1] = st.sh[2]
NoShape(st) == st.sh = <<0, 0>>
NoData(st) == Names(st.m) = {}
Fits(st, n) == n = st.sh[1] \/ n = st.sh[2]
Cut(v, sh) == [i \in 1..sh[1] |-> [j \in 1..sh[2] |-> v[i][j]]]
Short(v, n) == [i \in 1..n |-> v[i]]

\* rows a+1..b of a sequence; <<>> is all of them
Rng(r, n) == IF r = <<>> THEN [i \in 1..n |-> i] ELSE [i \in 1..r[2] - r[1] |-> r[1] + i]
Cells(v, rs, cs) == LET R == Rng(rs, Len(v))  C == Rng(cs, Len(v[1])) IN [i \in 1..Len(R) |-> [j \in 1..Len(C) |-> v[R[i]][C[j]]]]
ImpNames(e) == IF e.tabs = <<>> THEN [i \in 1..Len(e.src) |-> i] ELSE e.tabs
ImpVal(e, i) == Cells(e.src[i].v, e.rs, e.cs)

Writes == {"addm", "blankm", "cell", "line", "addl", "blankl", "celll", "crop", "atom", "imp", "csv", "csv3", "csvl", "shape"}
\* requests that change nothing
Idle(st, e) == \/ e.op = "blankm" /\ Has(st.m, e.n)
               \/ e.op = "blankl" /\ Has(st.k, e.n)
               \/ e.op = "crop" /\ e.sh = st.sh
               \/ e.op = "shape" /\ ~NoData(st) /\ e.sh = st.sh
Refused(st, e) ==
  IF e.op \in Writes /\ Idle(st, e) THEN FALSE
  ELSE IF e.op \in Writes /\ st.ro THEN TRUE
  ELSE CASE e.op = "shape" -> ~NoData(st) /\ e.sh # st.sh
         [] e.op = "addm" -> \/ Has(st.m, e.n) /\ ~e.ov
                             \/ (~NoData(st) \/ e.how = "set") /\ Dims(e.v) # st.sh
         [] e.op = "blankm" -> NoShape(st) \/ (e.sh # <<>> /\ e.sh # st.sh)
         [] e.op = "addl" -> \/ Has(st.k, e.n) /\ ~e.ov
                             \/ NoShape(st) \/ ~Fits(st, Len(e.v))
         [] e.op = "blankl" -> IF NoShape(st) THEN e.len = 0 ELSE IF e.len = 0 THEN ~Square(st) ELSE ~Fits(st, e.len)
         [] e.op = "crop" -> e.sh[1] > st.sh[1] \/ e.sh[2] > st.sh[2] \/ (Square(st) /\ e.sh[1] # e.sh[2])
         [] e.op = "imp" -> \E i \in 1..Len(ImpNames(e)) : LET x == ImpNames(e)[i] IN
                               Has(st.m, e.src[x].n) \/ (~NoData(st) /\ Dims(ImpVal(e, x)) # st.sh)
         [] e.op \in {"get", "attr"} -> Has(st.m, e.n) = Has(st.k, e.n)
         [] e.op = "lkix" -> Cardinality(ToSet(st.k[e.n])) # Len(st.k[e.n])
         [] OTHER -> FALSE

\* values of a table r, c, x, ... in the cells of a matrix
CsvCell(e, i, j, k, old) == IF \E x \in 1..Len(e.rows) : e.rows[x].i = i /\ e.rows[x].j = j
  THEN e.rows[CHOOSE x \in 1..Len(e.rows) : e.rows[x].i = i /\ e.rows[x].j = j].x[k] ELSE old[i][j]
CsvMat(st, e, k) == LET old == IF Has(st.m, e.names[k]) THEN st.m[e.names[k]] ELSE Zeros(st.sh) IN
  TLCEval([i \in 1..st.sh[1] |-> [j \in 1..st.sh[2] |-> CsvCell(e, i, j, k, old)]])
\* values of a table with a line for every zone
CsvLk(st, e, k) == LET n == Len(e.rows) IN TLCEval([z \in 1..n |-> e.rows[CHOOSE x \in 1..n : e.rows[x].i = z].x[k]])

FromAll(f, names, F(_)) == [n \in DOMAIN f \cup ToSet(names) |-> IF n \in ToSet(names) THEN F(CHOOSE k \in 1..Len(names) : names[k] = n) ELSE f[n]]

Do(st, e) ==
  CASE e.op = "new" -> IF e.how = "frame"
         THEN [St0 EXCEPT !.sh = <<e.len, e.len>>, !.k = [n \in {e.cols[i].n : i \in 1..Len(e.cols)} |-> e.cols[CHOOSE i \in 1..Len(e.cols) : e.cols[i].n = n].v], !.file = e.file]
         ELSE [St0 EXCEPT !.file = e.file]
    [] e.op = "shape" -> [st EXCEPT !.sh = e.sh]
    [] e.op = "addm" -> [st EXCEPT !.m = Put(@, e.n, e.v), !.sh = Dims(e.v)]
    [] e.op = "blankm" -> IF Has(st.m, e.n) THEN st ELSE [st EXCEPT !.m = Put(@, e.n, Zeros(st.sh))]
    [] e.op = "cell" -> [st EXCEPT !.m[e.n][e.i][e.j] = e.x]
    [] e.op = "line" -> [st EXCEPT !.m[e.n][e.i] = e.v]
    [] e.op = "addl" -> [st EXCEPT !.k = Put(@, e.n, e.v)]
    [] e.op = "blankl" -> IF Has(st.k, e.n) THEN st
         ELSE LET n == IF e.len = 0 THEN st.sh[1] ELSE e.len IN [st EXCEPT !.k = Put(@, e.n, Const(n, 0)), !.sh = IF @ = <<0, 0>> THEN <<n, n>> ELSE @]
    [] e.op = "celll" -> [st EXCEPT !.k[e.n][e.i] = e.x]
    [] e.op = "crop" -> [st EXCEPT !.sh = e.sh, !.m = [n \in DOMAIN @ |-> Cut(@[n], e.sh)],
                           !.k = [n \in DOMAIN @ |-> Short(@[n], IF Len(@[n]) = st.sh[1] THEN e.sh[1] ELSE e.sh[2])]]
    [] e.op = "imp" -> LET ix == ImpNames(e)  nm == [i \in 1..Len(ix) |-> e.src[ix[i]].n] IN
         [st EXCEPT !.m = FromAll(@, nm, LAMBDA k : ImpVal(e, ix[k])), !.sh = IF NoData(st) THEN Dims(ImpVal(e, ix[1])) ELSE @]
    [] e.op \in {"csv", "csv3"} -> [st EXCEPT !.m = FromAll(@, e.names, LAMBDA k : CsvMat(st, e, k))]
    [] e.op = "csvl" -> [st EXCEPT !.k = FromAll(@, e.names, LAMBDA k : CsvLk(st, e, k))]
    [] e.op = "reopen" -> [st EXCEPT !.ro = (e.mode = "r")]
    [] OTHER -> st
Apply(st, e) == TLCEval(IF Refused(st, e) THEN st ELSE Do(st, e))

-----------------------------------------------------------------------------
Dump(f, o) == /\ Len(o) = Cardinality(Names(f)) /\ {o[i].n : i \in 1..Len(o)} = Names(f)
              /\ \A i \in 1..Len(o) : o[i].v = f[o[i].n]
Holds(st, o) == <<<<"shape of the file", o.sh = st.sh>>,
                  <<"matrices of the file", Dump(st.m, o.m)>>,
                  <<"look-ups of the file", Dump(st.k, o.k)>>,
                  <<"names of the file", ToSet(o.kd) = Names(st.m) /\ ToSet(o.kl) = Names(st.k) /\ Len(o.ka) = Len(o.kd) + Len(o.kl) /\ ToSet(o.ka) = ToSet(o.kd) \cup ToSet(o.kl)>>>>
Labels(st, x, n) == IF x = <<>> THEN [i \in 1..n |-> i - 1] ELSE IF x[1].n # "" THEN st.k[x[1].n] ELSE x[1].v
\* the index of x in labels, of the next larger one if it is not there, or of the largest
Ix(lab, x) == LET up == {i \in 1..Len(lab) : lab[i] >= x} IN
  IF up = {} THEN CHOOSE i \in 1..Len(lab) : \A j \in 1..Len(lab) : lab[j] <= lab[i]
  ELSE CHOOSE i \in up : \A j \in up : lab[i] <= lab[j]
RcNames(st, e) == IF e.mats = <<>> THEN SetToSeq(Names(st.m)) ELSE [i \in 1..Len(e.mats) |-> e.mats[i]]
OutName(e, n) == IF e.as = "map" THEN "new" \o n ELSE n
RcRow(e, i) == IF e.rf \in {"int", "npint"} THEN e.rows[1] ELSE e.rows[i]
RcCol(e, i) == IF e.cf \in {"int", "npint"} THEN e.cols[1] ELSE e.cols[i]
RcLen(e) == IF e.rf \in {"int", "npint"} THEN Len(e.cols) ELSE Len(e.rows)
RcVals(st, e, n) == [i \in 1..RcLen(e) |-> st.m[n][RcRow(e, i) + 1][RcCol(e, i) + 1]]
RcPairs(e) == [i \in 1..RcLen(e) |-> <<RcRow(e, i), RcCol(e, i)>>]
Given(e) == [i \in 1..RcLen(e) |-> 100 + 7 * i]      \* an index that is given, or that of a series
GivenC(e) == [i \in 1..RcLen(e) |-> 300 + 7 * i]
RcIndex(e) == IF e.ix = "rc" THEN RcPairs(e)
  ELSE LET g == IF e.ix = "array" THEN Given(e) ELSE IF e.rf = "series" THEN Given(e) ELSE IF e.cf = "series" THEN GivenC(e) ELSE <<>>
       IN IF g = <<>> THEN RcPairs(e) ELSE [i \in 1..RcLen(e) |-> <<g[i]>>]
Table(st, e, o, pre) ==
  LET ns == RcNames(st, e) IN
  <<<<"columns of the table", IF e.mats = <<>> THEN ToSet(o.cols) = {pre \o OutName(e, n) : n \in ToSet(ns)} /\ Len(o.cols) = Len(ns)
                              ELSE o.cols = [i \in 1..Len(ns) |-> pre \o OutName(e, ns[i])]>>,
    <<"values of the table", \A i \in 1..Len(ns) : \A j \in 1..Len(o.cols) : o.cols[j] = pre \o OutName(e, ns[i]) => o.vals[j] = RcVals(st, e, ns[i])>>>>
\* columns lo+1..hi of the old at those of the new

MovedRow(r, e) == LET o == Rng(e.old, Len(r))  w == Rng(e.nw, e.cols) IN
  [j \in 1..e.cols |-> IF \E x \in 1..Len(w) : w[x] = j THEN r[o[CHOOSE x \in 1..Len(w) : w[x] = j]] ELSE 0]
Moved(v, e) == [i \in 1..Len(v) |-> MovedRow(v[i], e)]
Judge(s0, s2, e) ==
  IF Refused(s0, e) THEN <<<<"what cannot be is refused", e.err # "">>>> \o Holds(s2, e.obs)
  ELSE IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>> \o Holds(s2, e.obs)
  ELSE Holds(s2, e.obs) \o
  CASE e.op \in {"get", "attr"} -> <<<<"values of a name", e.obs.res = (IF Has(s2.m, e.n) THEN s2.m[e.n] ELSE s2.k[e.n])>>>>
    [] e.op = "df" -> LET v == IF e.lk THEN [i \in 1..Len(s2.k[e.n]) |-> <<s2.k[e.n][i]>>] ELSE s2.m[e.n] IN
         <<<<"values of the frame", e.obs.res.v = v>>,
           <<"labels of the frame", e.obs.res.ix = Labels(s2, e.ix, Len(v)) /\ (e.lk \/ e.obs.res.cols = Labels(s2, e.cols, Len(v[1])))>>>>
    [] e.op = "at" -> <<<<"values at the cell", Dump([n \in Names(s2.m) |-> s2.m[n][e.i][e.j]], e.obs.res)>>>>
    [] e.op = "rc" -> Table(s2, e, e.obs.res, "") \o <<<<"index of the table", e.obs.res.ix = RcIndex(e)>>>>
    [] e.op = "join" -> Table(s2, e, e.obs.res, e.pre) \o <<<<"the table that is joined is kept", e.obs.res.kept>>>>
    [] e.op = "lkix" -> <<<<"indexes of labels", e.obs.res = [i \in 1..Len(e.x) |-> Ix(s2.k[e.n], e.x[i]) - 1]>>>>
    [] e.op = "rlk" -> <<<<"labels to indexes", ToSet(e.obs.res) = {<<s2.k[e.n][i], i - 1>> : i \in 1..Len(s2.k[e.n])}>>>>
    [] e.op = "gz" -> <<>> \o Holds(s2, e.obs.res)
    [] e.op = "imp" -> <<<<"the other file is as it was, and closed", e.obs.res>>>>
    [] e.op = "remap" -> <<<<"shape of the other file", e.obs.res.sh = <<s2.sh[1], e.cols>>>>,
         <<"matrices of the other file", Dump([n \in ToSet(e.mats) |-> Moved(s2.m[n], e)], e.obs.res.m)>>,
         <<"look-ups of the other file", Dump([n \in ToSet(e.lr) \cup ToSet(e.lc) |-> IF n \in ToSet(e.lr) THEN s2.k[n] ELSE MovedRow(s2.k[n], e)], e.obs.res.k)>>>>
    [] OTHER -> <<>>
=============================================================================

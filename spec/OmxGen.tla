------------------------------ MODULE OmxGen ------------------------------
(* Histories of one matrix file.                                             *)
EXTENDS Omx, Rand, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

MNames == <<"A", "B", "C", "i", "A", "B">>
LNames == <<"L", "M", "A", "L", "M">>
Kinds == <<"f8", "f8", "i4", "i8", "f4">>
Mat(s, sh) == FillSeq(sh[1], LAMBDA i : FillSeq(sh[2], LAMBDA j : 1 + Rnd(s, 10 * i + j, 90)))
\* labels: mostly unique, in any order
Lab(s, n) == LET w == Rnd(s, 1, 10)  up == [i \in 1..n |-> 10 * i + Rnd(s, 20, 5)] IN
  IF w < 3 THEN up ELSE IF w < 8 THEN Shuffle(Sub(s, 2), up) ELSE IF w < 9 THEN Reverse(up) ELSE FillSeq(n, LAMBDA i : 10 * (1 + Rnd(s, 30 + i, n)))
Dim(s, i) == 1 + Rnd(s, i, 4)
NewSh(s) == LET n == Dim(s, 1) IN IF Coin(s, 2, 55) THEN <<n, n>> ELSE <<n, Dim(s, 3)>>
\* another shape than that of the file
OffSh(s, sh) == IF Coin(s, 1, 50) THEN <<sh[1] + 1, sh[2]>> ELSE IF Coin(s, 2, 50) THEN <<sh[1], sh[2] + 1>> ELSE <<sh[1] + 1, sh[2] + 1>>
DataSh(st0, s) == IF NoShape(st0) \/ (NoData(st0) /\ Names(st0.k) = {} /\ Coin(s, 60, 30)) THEN NewSh(Sub(s, 61))
                  ELSE IF ~NoData(st0) /\ Coin(s, 62, 12) THEN OffSh(Sub(s, 63), st0.sh) ELSE st0.sh
LkLen(st0, s) == IF Coin(s, 1, 12) THEN st0.sh[1] + st0.sh[2] + 1 ELSE IF Coin(s, 2, 50) THEN st0.sh[1] ELSE st0.sh[2]
AMat(st0, s) == PickS(s, 70, Names(st0.m))
ALk(st0, s) == PickS(s, 71, Names(st0.k))

NewOp(s) == LET n == Dim(s, 1)  how == Pick(s, 2, <<"temp", "file", "file", "file", "frame">>) IN
  [op |-> "new", how |-> how, len |-> n, file |-> IF how = "frame" THEN Coin(s, 4, 60) ELSE how = "file",
   cols |-> IF how = "frame" THEN <<[n |-> "L", v |-> Lab(Sub(s, 5), n)]>> \o (IF Coin(s, 6, 50) THEN <<[n |-> "M", v |-> Lab(Sub(s, 7), n)]>> ELSE <<>>) ELSE <<>>]
ShapeOp(g, s) == [op |-> "shape", sh |-> IF NoData(g) /\ Names(g.k) = {} THEN NewSh(s) ELSE IF NoData(g) \/ Coin(s, 7, 30) THEN g.sh ELSE OffSh(s, g.sh)]
AddM(g, s) == LET how == Pick(s, 1, <<"add", "add", "set">>)  n == Pick(s, 2, MNames) IN
  [op |-> "addm", n |-> n, v |-> Mat(Sub(s, 3), IF how = "set" /\ Coin(s, 5, 85) /\ ~NoShape(g) THEN g.sh ELSE DataSh(g, Sub(s, 4))), how |-> how, ov |-> how = "add" /\ Coin(s, 6, IF Has(g.m, n) THEN 70 ELSE 20), kind |-> Pick(s, 7, Kinds)]
BlankM(g, s) == [op |-> "blankm", n |-> Pick(s, 2, MNames), kind |-> Pick(s, 7, Kinds), sh |-> IF Coin(s, 3, 50) THEN <<>> ELSE IF Coin(s, 4, 80) THEN g.sh ELSE OffSh(s, g.sh)]
CellOp(g, s) == LET n == AMat(g, s) IN
  IF Coin(s, 1, 60) THEN [op |-> "cell", n |-> n, i |-> 1 + Rnd(s, 2, g.sh[1]), j |-> 1 + Rnd(s, 3, g.sh[2]), x |-> 1 + Rnd(s, 4, 90)]
  ELSE [op |-> "line", n |-> n, i |-> 1 + Rnd(s, 2, g.sh[1]), v |-> FillSeq(g.sh[2], LAMBDA j : 1 + Rnd(s, 10 + j, 90))]
AddL(g, s) == LET how == Pick(s, 1, <<"add", "add", "set">>)  n == Pick(s, 2, LNames)  len == IF NoShape(g) THEN Dim(s, 3) ELSE LkLen(g, Sub(s, 4)) IN
  [op |-> "addl", n |-> n, v |-> Lab(Sub(s, 5), len), how |-> how, ov |-> how = "add" /\ Coin(s, 6, IF Has(g.k, n) THEN 70 ELSE 20), kind |-> Pick(s, 7, Kinds)]
BlankL(g, s) == [op |-> "blankl", n |-> Pick(s, 2, LNames), kind |-> Pick(s, 7, Kinds), len |-> IF Coin(s, 3, 50) THEN 0 ELSE IF NoShape(g) THEN Dim(s, 4) ELSE LkLen(g, Sub(s, 5))]
CellL(g, s) == LET n == ALk(g, s) IN [op |-> "celll", n |-> n, i |-> 1 + Rnd(s, 1, Len(g.k[n])), x |-> 1 + Rnd(s, 2, 90)]
CropOp(g, s) ==
  LET a == IF g.sh[1] = 1 THEN 1 ELSE g.sh[1] - Rnd(s, 1, 2)  b == IF g.sh[2] = 1 THEN 1 ELSE g.sh[2] - Rnd(s, 2, 2)
      w == Rnd(s, 3, 10)
      sh == IF w = 0 THEN <<g.sh[1] + 1, g.sh[2]>> ELSE IF w = 1 THEN g.sh ELSE IF Square(g) /\ w < 9 THEN <<a, a>> ELSE <<a, b>>
  IN [op |-> "crop", sh |-> sh, how |-> IF sh[1] = sh[2] /\ Coin(s, 4, 50) THEN "one" ELSE Pick(s, 5, <<"two", "pair">>)]
AtomOp(g, s) == LET all == SetToSeq({<<"m", n>> : n \in Names(g.m)} \cup {<<"k", n>> : n \in Names(g.k)})  x == Pick(s, 1, all) IN
  [op |-> "atom", n |-> x[2], lk |-> x[1] = "k", kind |-> Pick(s, 2, <<"f8", "i4", "f4", "i8">>), all |-> Coin(s, 3, 30), smaller |-> Coin(s, 4, 30)]
Slice(s, n) == IF Coin(s, 1, 50) THEN <<>> ELSE LET a == Rnd(s, 2, n) IN <<a, a + 1 + Rnd(s, 3, n - a)>>
ImpOp(g, s) ==
  LET fit == ~NoShape(g) /\ (Coin(s, 1, 85) \/ (NoData(g) /\ Names(g.k) # {}))
      \* the other file is larger when it is sliced
      sl == Coin(s, 2, 40)
      base == IF fit THEN g.sh ELSE NewSh(Sub(s, 3))
      osh == IF sl THEN <<base[1] + Rnd(s, 4, 2), base[2] + Rnd(s, 5, 2)>> ELSE base
      fresh == SelectSeq(<<"A", "B", "C", "D">>, LAMBDA n : ~Has(g.m, n))
      ns == IF Coin(s, 6, 12) /\ Names(g.m) # {} THEN <<AMat(g, s)>> ELSE First(Shuffle(Sub(s, 7), fresh), 1 + Rnd(s, 8, 2))
      names == IF ns = <<>> THEN <<"E">> ELSE ns
      off(k, n) == LET d == osh[k] - n IN IF d = 0 THEN <<0, n>> ELSE LET a == Rnd(s, 20 + k, d + 1) IN <<a, a + n>>
  IN [op |-> "imp", src |-> FillSeq(Len(names), LAMBDA i : [n |-> names[i], v |-> Mat(Sub(s, 30 + i), osh)]),
      tabs |-> IF Coin(s, 9, 50) THEN <<>> ELSE IF Coin(s, 10, 50) THEN <<1>> ELSE Reverse([i \in 1..Len(names) |-> i]),
      rs |-> IF sl THEN off(1, base[1]) ELSE <<>>, cs |-> IF sl THEN off(2, base[2]) ELSE <<>>]
CsvOp(g, s) ==
  LET cells == SelectSeq(FillSeq(g.sh[1] * g.sh[2], LAMBDA k : [i |-> 1 + ((k - 1) \div g.sh[2]), j |-> 1 + ((k - 1) % g.sh[2])]), LAMBDA c : Coin(s, 100 + 10 * c.i + c.j, 75))
      cs == IF cells = <<>> THEN <<[i |-> 1, j |-> 1]>> ELSE IF Coin(s, 1, 60) THEN Shuffle(Sub(s, 2), cells) ELSE cells
      op == IF Coin(s, 3, 60) THEN "csv" ELSE "csv3"
      fresh == SelectSeq(<<"A", "B", "C", "D", "E">>, LAMBDA n : ~Has(g.m, n))
      ns == First(Shuffle(Sub(s, 4), IF op = "csv3" THEN fresh ELSE <<"A", "B", "C">>), 1 + Rnd(s, 5, 2))
  IN [op |-> IF ns = <<>> THEN "csv" ELSE op, names |-> IF ns = <<>> THEN <<"A">> ELSE ns, base |-> Rnd(s, 6, 2), chunk |-> 1 + Rnd(s, 7, 6), kind |-> Pick(s, 9, <<"f8", "f4", "i4">>), asd |-> Coin(s, 10, 30),
      rows |-> FillSeq(Len(cs), LAMBDA k : [i |-> cs[k].i, j |-> cs[k].j, x |-> <<1 + Rnd(s, 200 + k, 90), 1 + Rnd(s, 300 + k, 90)>>])]
CsvL(g, s) ==
  LET n == IF Coin(s, 1, 50) THEN g.sh[1] ELSE g.sh[2]
      ok == SelectSeq(<<"L", "M", "N">>, LAMBDA x : IF Has(g.k, x) THEN Len(g.k[x]) = n ELSE TRUE)
      ns == First(Shuffle(Sub(s, 4), ok), 1 + Rnd(s, 5, 2))
      byz == Coin(s, 2, 60)
      order == IF byz THEN Shuffle(Sub(s, 3), FillSeq(n, LAMBDA i : i)) ELSE FillSeq(n, LAMBDA i : i)
  IN [op |-> "csvl", names |-> IF ns = <<>> THEN <<"O">> ELSE ns, chunk |-> 1 + Rnd(s, 7, 5), byz |-> byz, drop |-> byz /\ Coin(s, 8, 40), base |-> Rnd(s, 9, 2),
      rows |-> FillSeq(n, LAMBDA k : [i |-> order[k], x |-> <<1 + Rnd(s, 200 + k, 90), 1 + Rnd(s, 300 + k, 90)>>])]
Reopen(g, s) == [op |-> "reopen", mode |-> IF g.ro \/ Coin(s, 1, 50) THEN "a" ELSE "r", how |-> Pick(s, 2, <<"change", "change", "close", "with">>)]
GetOp(g, s) == [op |-> Pick(s, 1, <<"get", "attr">>), n |-> Pick(s, 2, <<"A", "B", "C", "L", "M">>)]
Lb(g, s, n) == LET fit == {x \in Names(g.k) : Len(g.k[x]) = n} IN
  IF fit # {} /\ Coin(s, 1, 55) THEN <<[n |-> PickS(s, 2, fit), v |-> <<>>]>> ELSE IF Coin(s, 3, 50) THEN <<[n |-> "", v |-> FillSeq(n, LAMBDA i : 50 + Rnd(s, 10 + i, 40))]>> ELSE <<>>
DfOp(g, s) == LET lk == {n \in Names(g.k) : ~Has(g.m, n)}  useL == lk # {} /\ (NoData(g) \/ Coin(s, 1, 20))
                  n == IF useL THEN PickS(s, 2, lk) ELSE AMat(g, s) IN
  [op |-> "df", n |-> n, lk |-> useL, ix |-> Lb(g, Sub(s, 3), IF useL THEN Len(g.k[n]) ELSE g.sh[1]), cols |-> IF useL THEN <<>> ELSE Lb(g, Sub(s, 4), g.sh[2])]
AtOp(g, s) == [op |-> "at", i |-> 1 + Rnd(s, 2, g.sh[1]), j |-> 1 + Rnd(s, 3, g.sh[2])]
RcOp(g, s) ==
  LET rf == Pick(s, 1, <<"list", "array", "series", "array", "series", "int", "npint">>)
      cf == IF rf \in {"int", "npint"} THEN Pick(s, 2, <<"list", "array", "series">>) ELSE Pick(s, 3, <<"list", "array", "series", "series", "int", "npint">>)
      n == 1 + Rnd(s, 4, 6)
      ms == First(Shuffle(Sub(s, 5), SetToSeq(Names(g.m))), 1 + Rnd(s, 6, 3))
      rep == Coin(s, 7, 70)
      vals(i, k) == FillSeq(n, LAMBDA x : Rnd(s, i + x, g.sh[k]))
      join == Coin(s, 8, 30)
  IN [op |-> IF join THEN "join" ELSE "rc", rf |-> IF join THEN "list" ELSE rf, cf |-> IF join THEN "list" ELSE cf,
      rows |-> vals(100, 1), cols |-> vals(200, 2), mats |-> IF Coin(s, 9, 35) THEN <<>> ELSE ms, as |-> IF Coin(s, 9, 35) THEN "none" ELSE Pick(s, 10, <<"list", "tuple", "map">>),
      ix |-> Pick(s, 11, <<"none", "none", "rc", "rc", "array">>), named |-> Pick(s, 12, <<"no", "yes", "same">>),
      pre |-> IF join THEN Pick(s, 13, <<"", "p_">>) ELSE "", how |-> Pick(s, 14, <<"name", "expr", "array">>)]
LkIx(g, s) == LET n == ALk(g, s)  lab == g.k[n]  m == 1 + Rnd(s, 1, 5) IN
  [op |-> "lkix", n |-> n, form |-> Pick(s, 2, <<"list", "array", "two", "util">>), x |-> FillSeq(m, LAMBDA i : IF Coin(s, 10 + i, 85) THEN Pick(s, 20 + i, lab) ELSE Pick(s, 20 + i, lab) + Pick(s, 30 + i, <<-3, 3, 40>>))]
RlkOp(g, s) == LET un == {n \in Names(g.k) : Cardinality(ToSet(g.k[n])) = Len(g.k[n])} IN
  IF un = {} THEN LkIx(g, s) ELSE [op |-> "rlk", n |-> PickS(s, 1, un), how |-> Pick(s, 2, <<"call", "attr">>)]
Remap(g, s) ==
  LET k == 1 + Rnd(s, 1, g.sh[2])  a == Rnd(s, 2, g.sh[2] - k + 1)
      nc == k + Rnd(s, 3, 3)  b == Rnd(s, 4, nc - k + 1)
      full == k = g.sh[2]
      lr == {n \in Names(g.k) : Len(g.k[n]) = g.sh[1]}  lc == {n \in Names(g.k) : Len(g.k[n]) = g.sh[2]}
      rr == {n \in lr : Coin(s, 20 + Len(g.k[n]), 50)}  cc == lc \ rr
  IN [op |-> "remap", cols |-> nc, old |-> IF full /\ Coin(s, 5, 50) THEN <<>> ELSE <<a, a + k>>, nw |-> IF nc = k /\ ~full THEN <<>> ELSE <<b, b + k>>,
      mats |-> SetToSeq({n \in Names(g.m) : Coin(s, 30, 90)}), lr |-> SetToSeq(rr), lc |-> SetToSeq(cc)]
Read(g, s) ==
  LET w == Rnd(s, 1, 20) IN
  IF w < 3 THEN GetOp(g, s)
  ELSE IF w < 5 /\ (~NoData(g) \/ \E n \in Names(g.k) : TRUE) THEN DfOp(g, s)
  ELSE IF w < 6 /\ ~NoShape(g) THEN AtOp(g, s)
  ELSE IF w < 14 /\ ~NoData(g) THEN RcOp(g, s)
  ELSE IF w < 17 /\ Names(g.k) # {} THEN LkIx(g, s)
  ELSE IF w < 18 /\ Names(g.k) # {} THEN RlkOp(g, s)
  ELSE IF w < 19 /\ ~NoData(g) THEN Remap(g, s)
  ELSE IF g.file THEN [op |-> "gz", ro |-> TRUE] ELSE GetOp(g, s)
Write(g, s) ==
  LET w == Rnd(s, 1, 22) IN
  IF w < 1 THEN ShapeOp(g, s)
  ELSE IF w < 6 THEN AddM(g, s)
  ELSE IF w < 7 THEN BlankM(g, s)
  ELSE IF w < 9 /\ ~NoData(g) THEN CellOp(g, s)
  ELSE IF w < 12 THEN AddL(g, s)
  ELSE IF w < 13 THEN BlankL(g, s)
  ELSE IF w < 14 /\ Names(g.k) # {} THEN CellL(g, s)
  ELSE IF w < 16 /\ ~NoShape(g) THEN CropOp(g, s)
  ELSE IF w < 17 /\ Names(g.k) \cup Names(g.m) # {} THEN AtomOp(g, s)
  ELSE IF w < 19 THEN ImpOp(g, s)
  ELSE IF w < 20 /\ ~NoShape(g) THEN CsvOp(g, s)
  ELSE IF w < 21 /\ ~NoShape(g) THEN CsvL(g, s)
  ELSE IF g.file THEN Reopen(g, s) ELSE AddM(g, s)
GenOp(g, i, s) ==
  IF i = 0 \/ Coin(s, 1, 2) THEN NewOp(Sub(s, 2))
  ELSE IF g.ro /\ Coin(s, 4, 35) THEN Reopen(g, Sub(s, 5))
  ELSE IF Coin(s, 3, IF i < 6 THEN 85 ELSE 50) THEN Write(g, Sub(s, 6)) ELSE Read(g, Sub(s, 7))

Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = St0
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(GenOp(st, Len(hist), Sub(seed, 1000 * (1 + Len(hist)))))
           IN hist' = Append(hist, e) /\ st' = Apply(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every matrix has the shape of the file, every look-up the length of a side
LawShape == /\ \A n \in Names(st.m) : Dims(st.m[n]) = st.sh
            /\ \A n \in Names(st.k) : Fits(st, Len(st.k[n]))
\* what is refused leaves the file alone, and a file that is read only changes only by being opened again
LawRefused == [][LET e == hist'[Len(hist')] IN (Refused(st, e) \/ (st.ro /\ e.op \notin {"reopen", "new"})) => st' = st]_vars
=============================================================================

------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Collections of choice data: tables of cases (co), of cases and            *)
(* alternatives (complete: ca, sparse: ce), choices, availability, weights.   *)
(*                                                                         *)
(* A collection is a set of functions from labels: which value belongs to    *)
(* which case and which alternative.  The order of rows and columns, the      *)
(* form in which a table came and the form in which it is kept are not part   *)
(* of the state: every view of every form has to show the same functions.     *)
(* Collections sit in named slots; one operation derives one from another.    *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC, SequencesExt

Rng(f) == {f[k] : k \in DOMAIN f}
Pos(sq, v) == CHOOSE k \in 1..Len(sq) : sq[k] = v
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RECURSIVE SumS(_)
SumS(sq) == IF sq = <<>> THEN 0 ELSE sq[1] + SumS(Tail(sq))
Increasing(sq) == \A k \in 1..(Len(sq) - 1) : sq[k] < sq[k + 1]
Nr(a, b) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= 3
Wr(a, b) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= 20 + (Abs(b) \div 50000)

\* value of column n in a row with columns cols
Col(cols, row, n) == row[Pos(cols, n)]

---------------------------------------------------------------------------
(* From the tables that are handed over to the functions they describe.      *)

\* every choice table yields a function of pairs; pairs that it does not mention are 0
Pairs(cases, alts) == {<<c, a>> : c \in cases, a \in alts}
WideAt(f, p) == IF p[1] \in {f.rows[k][1] : k \in 1..Len(f.rows)} /\ p[2] \in Rng(f.cols)
                THEN f.rows[CHOOSE k \in 1..Len(f.rows) : f.rows[k][1] = p[1]][2][Pos(f.cols, p[2])] ELSE 0
TallAt(f, p) == LET ks == {k \in 1..Len(f.rows) : f.rows[k][1] = p[1] /\ f.rows[k][2] = p[2]}
                IN IF ks = {} THEN 0 ELSE f.rows[CHOOSE k \in ks : TRUE][3]

Evaluate(cols, row, x) ==       \* a small expression over the columns of a table: <<"n", name>>, <<"k", const>>, <<"*", a, b>>, <<"+", a, b>>, <<">", a, b>>
  LET at(y) == IF y[1] = "n" THEN Col(cols, row, y[2]) ELSE y[2]
  IN CASE x[1] = "n" -> Col(cols, row, x[2])
       [] x[1] = "k" -> x[2]
       [] x[1] = "*" -> Mul(at(x[2]), at(x[3]))
       [] x[1] = "+" -> at(x[2]) + at(x[3])
       [] x[1] = ">" -> IF at(x[2]) > at(x[3]) THEN One ELSE 0
       [] x[1] = "==" -> IF at(x[2]) = at(x[3]) THEN One ELSE 0

Made(e) ==
  LET cs == Rng(e.cases)
      al == Rng(e.alts)
      cot == TLCEval([c \in {e.co.rows[k][1] : k \in 1..Len(e.co.rows)} |-> e.co.rows[CHOOSE k \in 1..Len(e.co.rows) : e.co.rows[k][1] = c][2]])
      xt == TLCEval([p \in {<<e.x.rows[k][1], e.x.rows[k][2]>> : k \in 1..Len(e.x.rows)} |->
                     e.x.rows[CHOOSE k \in 1..Len(e.x.rows) : e.x.rows[k][1] = p[1] /\ e.x.rows[k][2] = p[2]][3]])
      chv(p) == CASE e.ch.k = "none" -> 0
                  [] e.ch.k = "wide" -> WideAt(e.ch, p)
                  [] e.ch.k \in {"tall", "frame"} -> TallAt(e.ch, p)
                  [] e.ch.k = "array" -> TallAt(e.ch, p)
                  [] e.ch.k = "xname" -> IF p \in DOMAIN xt THEN Col(e.x.cols, xt[p], e.ch.n) ELSE 0
                  [] e.ch.k = "coname" -> IF Col(e.co.cols, cot[p[1]], e.ch.n) = p[2] * One THEN One ELSE 0
                  [] e.ch.k = "codes" -> IF e.ch.rows[CHOOSE k \in 1..Len(e.ch.rows) : e.ch.rows[k][1] = p[1]][2] = p[2] THEN One ELSE 0
      avv(p) == CASE e.av.k = "none" -> IF p \in DOMAIN xt THEN 1 ELSE 0
                  [] e.av.k = "true" -> 1
                  [] e.av.k = "wide" -> WideAt(e.av, p)
                  [] e.av.k \in {"tall", "frame", "array"} -> TallAt(e.av, p)
                  [] e.av.k = "xname" -> IF p \in DOMAIN xt THEN Col(e.x.cols, xt[p], e.av.n) \div One ELSE 0
                  [] e.av.k = "dict" -> IF p[2] \in {e.av.d[k][1] : k \in 1..Len(e.av.d)}
                                        THEN Evaluate(e.co.cols, cot[p[1]], e.av.d[CHOOSE k \in 1..Len(e.av.d) : e.av.d[k][1] = p[2]][2]) \div One ELSE 0
      wtv(c) == CASE e.wt.k = "none" -> One
                  [] e.wt.k \in {"series", "frame"} -> e.wt.rows[CHOOSE k \in 1..Len(e.wt.rows) : e.wt.rows[k][1] = c][2]
                  [] e.wt.k = "coname" -> Col(e.co.cols, cot[c], e.wt.n)
                  [] e.wt.k = "xname" -> LET p == CHOOSE q \in DOMAIN xt : q[1] = c IN Col(e.x.cols, xt[p], e.wt.n)
  IN [on |-> TRUE, cases |-> Sorted(cs), alts |-> e.alts, maxalts |-> IF e.codes = <<>> THEN al \cup Rng(e.lev) ELSE Rng(e.codes),
      names |-> e.names,
      cc |-> e.co.cols, co |-> cot, xc |-> e.x.cols, x |-> xt, hx |-> e.x.k # "none",
      hav |-> e.av.k # "none", av |-> TLCEval([p \in Pairs(cs, al) |-> avv(p)]),
      hch |-> e.ch.k # "none", ch |-> TLCEval([p \in Pairs(cs, al) |-> chv(p)]),
      hwt |-> e.wt.k # "none", wt |-> TLCEval([c \in cs |-> wtv(c)]), norm |-> One]

None == [on |-> FALSE]
NilF == [s \in {"A", "B", "C", "D", "E"} |-> None]

At(f, p, d) == IF p \in DOMAIN f THEN f[p] ELSE d

---------------------------------------------------------------------------
(* Parts, weights *)

Part(d, S) ==
  [d EXCEPT !.cases = SelectSeq(d.cases, LAMBDA c : c \in S),
            !.co = IF d.cc = <<>> THEN d.co ELSE TLCEval([c \in S |-> d.co[c]]),
            !.x = TLCEval([p \in {q \in DOMAIN d.x : q[1] \in S} |-> d.x[p]]),
            !.av = TLCEval([p \in {q \in DOMAIN d.av : q[1] \in S} |-> d.av[p]]),
            !.ch = TLCEval([p \in {q \in DOMAIN d.ch : q[1] \in S} |-> d.ch[p]]),
            !.wt = TLCEval([c \in S |-> d.wt[c]])]

Total(d, c) == SumS([k \in 1..Len(d.alts) |-> d.ch[<<c, d.alts[k]>>]])
NeedExtract(d) == d.hch /\ \E c \in Rng(d.cases) : Total(d, c) # One
Extracted(d) ==
  IF ~NeedExtract(d) THEN d
  ELSE [d EXCEPT !.ch = TLCEval([p \in DOMAIN d.ch |-> IF Total(d, p[1]) = 0 THEN 0 ELSE Div(d.ch[p], Total(d, p[1]))]),
                 !.wt = TLCEval([c \in DOMAIN d.wt |-> Mul(d.wt[c], Total(d, c))]),
                 !.hwt = TRUE]
Scaled(d, f) == [d EXCEPT !.wt = TLCEval([c \in DOMAIN d.wt |-> Div(d.wt[c], f)]), !.norm = Mul(d.norm, f), !.hwt = TRUE]
MeanWt(d) == SumS([k \in 1..Len(d.cases) |-> d.wt[d.cases[k]]]) \div Len(d.cases)

\* the columns of the cases and of the pairs that a request asks for
Asked(d, q) ==
  LET row(p) == (IF DOMAIN d.x = {} THEN <<>> ELSE d.x[p]) \o (IF d.cc = <<>> THEN <<>> ELSE d.co[p[1]])
      all == d.xc \o d.cc
  IN [d EXCEPT !.cc = [k \in 1..Len(q.co) |-> q.co[k].n], !.xc = [k \in 1..Len(q.ca) |-> q.ca[k].n],
               !.hx = q.ca # <<>>,
               !.co = IF q.co = <<>> THEN d.co ELSE TLCEval([c \in DOMAIN d.co |-> [k \in 1..Len(q.co) |-> Evaluate(d.cc, d.co[c], q.co[k].x)]]),
               !.x = TLCEval([p \in DOMAIN d.x |-> [k \in 1..Len(q.ca) |-> Evaluate(all, row(p), q.ca[k].x)]]),
               !.ch = IF q.ch.k = "code" THEN TLCEval([p \in DOMAIN d.ch |-> IF Col(d.cc, d.co[p[1]], q.ch.n) = p[2] * One THEN One ELSE 0])
                      ELSE IF q.ch.k = "co" THEN TLCEval([p \in DOMAIN d.ch |-> LET ks == {k \in 1..Len(q.ch.d) : q.ch.d[k][1] = p[2]} IN
                               IF ks = {} THEN 0 ELSE Evaluate(d.cc, d.co[p[1]], q.ch.d[CHOOSE k \in ks : TRUE][2])])
                      ELSE IF q.ch.k = "ca" THEN TLCEval([p \in DOMAIN d.ch |-> IF p \in DOMAIN d.x THEN Evaluate(d.xc, d.x[p], q.ch.x) ELSE 0]) ELSE d.ch,
               !.hch = d.hch \/ q.ch.k # "any",
               !.av = IF q.av.k = "co" THEN TLCEval([p \in DOMAIN d.av |-> LET ks == {k \in 1..Len(q.av.d) : q.av.d[k][1] = p[2]} IN
                               IF ks = {} THEN 0 ELSE Evaluate(d.cc, d.co[p[1]], q.av.d[CHOOSE k \in ks : TRUE][2]) \div One])
                      ELSE IF q.av.k = "ca" THEN TLCEval([p \in DOMAIN d.av |-> IF p \in DOMAIN d.x THEN Evaluate(d.xc, d.x[p], q.av.x) \div One ELSE 0]) ELSE d.av,
               !.hav = d.hav \/ q.av.k # "any",
               !.wt = IF q.wt.k = "co" THEN TLCEval([c \in DOMAIN d.wt |-> Evaluate(d.cc, d.co[c], q.wt.x)]) ELSE d.wt,
               !.hwt = d.hwt \/ q.wt.k # "any",
               !.norm = IF q.wt.k = "co" THEN One ELSE d.norm]

---------------------------------------------------------------------------
(* The set of alternatives is what the index of the tables says; labels that  *)
(* are in an index without having a row may be counted or not.                *)
WithAlts(d, seen) ==
  IF Increasing(seen) /\ Rng(d.alts) \subseteq Rng(seen) /\ Rng(seen) \subseteq d.maxalts
  THEN [d EXCEPT !.alts = seen,
          !.av = TLCEval([p \in Pairs(Rng(d.cases), Rng(seen)) |-> At(d.av, p, 0)]),
          !.ch = TLCEval([p \in Pairs(Rng(d.cases), Rng(seen)) |-> At(d.ch, p, 0)])]
  ELSE d
SeenAlts(d, o) == IF "alts" \in DOMAIN o THEN WithAlts(d, o.alts) ELSE d

Parts(d, e) == [k \in 1..Len(e.to) |-> IF e.err = "" /\ k <= Len(e.obs.parts) THEN Rng(e.obs.parts[k].cases) ELSE {}]

Apply(st, e) ==
  LET d == st[e.t] IN
  IF e.op # "make" /\ (~d.on \/ e.err # "") THEN [s \in DOMAIN st |-> IF "to" \in DOMAIN e /\ (IF e.op = "part" THEN s \in Rng(e.to) ELSE s = e.to) THEN None ELSE st[s]]
  ELSE CASE e.op = "make" -> [st EXCEPT ![e.t] = IF e.err = "" /\ ~e.mustfail THEN SeenAlts(Made(e), e.obs) ELSE None]
    [] e.op = "select" -> [st EXCEPT ![e.to] = Part(d, {c \in Rng(d.cases) : Evaluate(d.cc, d.co[c], e.x) # 0})]
    [] e.op = "part" -> LET ps == Parts(d, e) IN
         [s \in DOMAIN st |-> IF \E k \in 1..Len(e.to) : e.to[k] = s
                              THEN LET S == ps[CHOOSE k \in 1..Len(e.to) : e.to[k] = s] IN IF S \subseteq Rng(d.cases) THEN Part(d, S) ELSE None
                              ELSE st[s]]
    [] e.op = "prep" -> [st EXCEPT ![e.to] = Asked(d, e.q)]
    [] e.op = "store" -> [st EXCEPT ![e.to] = d]
    [] e.op = "scale" -> [st EXCEPT ![e.t] = IF e.v = One /\ ~Extracted(d).hwt THEN d ELSE Scaled(Extracted(d), e.v)]
    [] e.op = "auto" -> [st EXCEPT ![e.t] = LET x == Extracted(d) IN IF x.hwt THEN Scaled(x, MeanWt(x)) ELSE x]
    [] e.op = "unscale" -> [st EXCEPT ![e.t] = [d EXCEPT !.wt = TLCEval([c \in DOMAIN d.wt |-> Mul(d.wt[c], d.norm)]), !.norm = One]]
    [] OTHER -> st

---------------------------------------------------------------------------
(* What a collection shows of itself *)

Shape(m, n, k) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = k
\* a matrix over cases and alternatives agrees with a function of pairs
Grid(d, m, f) == Shape(m, Len(d.cases), Len(d.alts))
                 /\ \A i \in 1..Len(d.cases) : \A j \in 1..Len(d.alts) : f[<<d.cases[i], d.alts[j]>>] = m[i][j]
GridNear(d, m, f) == Shape(m, Len(d.cases), Len(d.alts))
                 /\ \A i \in 1..Len(d.cases) : \A j \in 1..Len(d.alts) : Nr(f[<<d.cases[i], d.alts[j]>>], m[i][j])
SameCols(a, b) == Len(a) = Len(b) /\ Rng(a) = Rng(b)
\* rows of cases
CoTable(d, cols, m) == Len(m) = Len(d.cases) /\ \A i \in 1..Len(m) : Len(m[i]) = Len(cols) /\ \A k \in 1..Len(cols) : Nr(m[i][k], Col(d.cc, d.co[d.cases[i]], cols[k]))
\* rows <<case, alternative, values>>
XRows(d, cols, rows, full) ==
  /\ Cardinality({<<rows[k][1], rows[k][2]>> : k \in 1..Len(rows)}) = Len(rows)
  /\ {<<rows[k][1], rows[k][2]>> : k \in 1..Len(rows)} = IF full THEN Pairs(Rng(d.cases), Rng(d.alts)) ELSE DOMAIN d.x
  /\ \A k \in 1..Len(rows) : LET p == <<rows[k][1], rows[k][2]>> IN
        IF p \in DOMAIN d.x THEN \A j \in 1..Len(cols) : Nr(rows[k][3][j], Col(d.xc, d.x[p], cols[j]))
        ELSE \A j \in 1..Len(cols) : rows[k][3][j] = 0
XCube(d, cols, m) ==
  Shape(m, Len(d.cases), Len(d.alts)) /\ \A i \in 1..Len(d.cases) : \A j \in 1..Len(d.alts) :
    LET p == <<d.cases[i], d.alts[j]>> IN
    IF p \in DOMAIN d.x THEN Len(m[i][j]) = Len(cols) /\ \A k \in 1..Len(cols) : Nr(m[i][j][k], Col(d.xc, d.x[p], cols[k]))
    ELSE m[i][j] = <<>>

Look(d, o) ==
  LET clean == o.cases = d.cases /\ o.alts = d.alts IN
  << <<"cases", o.cases = d.cases>>, <<"n-cases", o.n = Len(d.cases)>>,
     <<"alternatives", o.alts = d.alts>>, <<"n-alts", o.na = Len(d.alts)>>,
     <<"names", o.names = d.names>>,
     <<"co-columns", o.co.on = (d.cc # <<>>) /\ (o.co.on => SameCols(o.co.cols, d.cc))>>,
     <<"co-by-label", clean /\ o.co.on /\ SameCols(o.co.cols, d.cc) => CoTable(d, o.co.cols, o.co.lab)>>,
     <<"co-by-position", clean /\ o.co.on /\ SameCols(o.co.cols, d.cc) => CoTable(d, o.co.cols, o.co.pos)>>,
     <<"x-columns", o.x.on = d.hx /\ (o.x.on => SameCols(o.x.cols, d.xc))>>,
     <<"x-form", clean /\ o.x.on => o.x.kind = "ce" \/ DOMAIN d.x = Pairs(Rng(d.cases), Rng(d.alts))>>,
     <<"x-by-label", clean /\ o.x.on /\ SameCols(o.x.cols, d.xc) => XRows(d, o.x.cols, o.x.lab, FALSE)>>,
     <<"x-by-position", clean /\ o.x.on /\ SameCols(o.x.cols, d.xc) => XCube(d, o.x.cols, o.x.pos)>>,
     <<"availability-set", d.hav => o.av.on>>,
     <<"availability-of-sparse", o.x.on /\ o.x.kind = "ce" => o.av.on>>,
     <<"availability-by-label", clean /\ o.av.on => Grid(d, o.av.lab, d.av)>>,
     <<"availability-by-position", clean /\ o.av.on => Grid(d, o.av.pos, d.av)>>,
     <<"choice-set", o.ch.on = d.hch>>,
     <<"choice-by-label", clean /\ o.ch.on => GridNear(d, o.ch.lab, d.ch)>>,
     <<"choice-by-position", clean /\ o.ch.on => GridNear(d, o.ch.pos, d.ch)>>,
     <<"weight-set", o.wt.on = d.hwt>>,
     <<"weight-by-label", clean /\ o.wt.on => Len(o.wt.lab) = Len(d.cases) /\ \A i \in 1..Len(d.cases) : Wr(o.wt.lab[i], d.wt[d.cases[i]])>>,
     <<"weight-by-position", clean /\ o.wt.on => Len(o.wt.pos) = Len(d.cases) /\ \A i \in 1..Len(d.cases) : Wr(o.wt.pos[i], d.wt[d.cases[i]])>>,
     <<"normalization", Wr(o.norm, d.norm)>> >>

Tag(t, js) == [k \in 1..Len(js) |-> <<t \o js[k][1], js[k][2]>>]

\* views of one form of the data in another; kept: the rows that stand for the available alternatives, or for the rows that there are
Sparse(d, ho) == IF ho = "ce" THEN DOMAIN d.x ELSE {p \in DOMAIN d.av : d.av[p] # 0}
RowsOf(rows, S, f(_)) ==
  /\ Cardinality({<<rows[k][1], rows[k][2]>> : k \in 1..Len(rows)}) = Len(rows)
  /\ {<<rows[k][1], rows[k][2]>> : k \in 1..Len(rows)} = S
  /\ \A k \in 1..Len(rows) : Nr(rows[k][3], f(<<rows[k][1], rows[k][2]>>))
Conv(d, o) ==
  LET has(n) == n \in DOMAIN o
      sp == Sparse(d, o.kind)
  IN << <<"ca-as-ce", has("ca_ce") => /\ {<<o.ca_ce.rows[k][1], o.ca_ce.rows[k][2]>> : k \in 1..Len(o.ca_ce.rows)} = sp
                                      /\ Len(o.ca_ce.rows) = Cardinality(sp)
                                      /\ \A k \in 1..Len(o.ca_ce.rows) : LET r == o.ca_ce.rows[k] IN \A j \in 1..Len(o.ca_ce.cols) : Nr(r[3][j], Col(d.xc, d.x[<<r[1], r[2]>>], o.ca_ce.cols[j]))>>,
        <<"ce-as-ca", has("ce_ca") => XRows(d, o.ce_ca.cols, o.ce_ca.rows, TRUE)>>,
        <<"co-as-ce", has("co_ce") => /\ SameCols(o.co_ce.cols, d.cc)
                                      /\ {<<o.co_ce.rows[k][1], o.co_ce.rows[k][2]>> : k \in 1..Len(o.co_ce.rows)} = sp
                                      /\ \A k \in 1..Len(o.co_ce.rows) : LET r == o.co_ce.rows[k] IN \A j \in 1..Len(o.co_ce.cols) : Nr(r[3][j], Col(d.cc, d.co[r[1]], o.co_ce.cols[j]))>>,
        <<"av-as-ce", has("av_ce") => RowsOf(o.av_ce, sp, LAMBDA p : d.av[p] * One)>>,
        <<"ch-as-ce", has("ch_ce") => RowsOf(o.ch_ce, sp, LAMBDA p : d.ch[p])>>,
        <<"wt-as-ce", has("wt_ce") => RowsOf(o.wt_ce, sp, LAMBDA p : d.wt[p[1]])>>,
        <<"ca-combined", has("both") => /\ SameCols(o.both.cols, d.xc \o d.cc)
                                        /\ {<<o.both.rows[k][1], o.both.rows[k][2]>> : k \in 1..Len(o.both.rows)} = DOMAIN d.x
                                        /\ Len(o.both.rows) = Cardinality(DOMAIN d.x)
                                        /\ \A k \in 1..Len(o.both.rows) : LET r == o.both.rows[k] p == <<r[1], r[2]>> IN
                                             \A j \in 1..Len(o.both.cols) : LET n == o.both.cols[j] IN
                                               Nr(r[3][j], IF n \in Rng(d.xc) THEN Col(d.xc, d.x[p], n) ELSE Col(d.cc, d.co[r[1]], n))>>,
        <<"co-combined", has("wide") => /\ Len(o.wide.rows) = Len(d.cases)
                                        /\ \A k \in 1..Len(o.wide.rows) : LET r == o.wide.rows[k] c == r[1] IN
                                             \A j \in 1..Len(o.wide.cols) : LET n == o.wide.cols[j][1] a == o.wide.cols[j][2] IN
                                               IF a = 0 THEN Nr(r[2][j], Col(d.cc, d.co[c], n))
                                               ELSE IF <<c, a>> \in DOMAIN d.x THEN Nr(r[2][j], Col(d.xc, d.x[<<c, a>>], n)) ELSE r[2][j] \in {0, NaN}>>,
        <<"conversions-answer", o.failed = <<>> >> >>

SumOver(d, f, a, w) == SumS([i \in 1..Len(d.cases) |-> IF w THEN Mul(f[<<d.cases[i], a>>], d.wt[d.cases[i]]) ELSE f[<<d.cases[i], a>>]])
AvFx(d) == TLCEval([p \in DOMAIN d.av |-> d.av[p] * One])
ChNotAv(d) == TLCEval([p \in DOMAIN d.ch |-> IF d.av[p] # 0 THEN 0 ELSE d.ch[p]])
Summary(d, o) ==
  LET col(n, f, w) == n \in DOMAIN o => \A j \in 1..Len(d.alts) : Wr(o[n][j], SumOver(d, f, d.alts[j], w))
      gap(j) == Abs(SumOver(d, d.ch, d.alts[j], TRUE) - SumOver(d, d.ch, d.alts[j], FALSE))
      wd == d.hwt /\ \E j \in 1..Len(d.alts) : gap(j) > 200
      \* with weights, but sums equal up to rounding: either form of the report will do
  IN << <<"summary-answers", o.err = "">>,
        <<"summary-chosen", o.err = "" => IF wd THEN "chosen weighted" \in DOMAIN o /\ "chosen unweighted" \in DOMAIN o ELSE IF ~d.hwt THEN "chosen" \in DOMAIN o ELSE "chosen" \in DOMAIN o \/ "chosen weighted" \in DOMAIN o>>,
        <<"summary-chosen-sums", col("chosen", d.ch, FALSE) /\ col("chosen weighted", d.ch, TRUE) /\ col("chosen unweighted", d.ch, FALSE)>>,
        <<"summary-available", d.hav => col("available", AvFx(d), FALSE) /\ col("available weighted", AvFx(d), TRUE) /\ col("available unweighted", AvFx(d), FALSE)>>,
        <<"summary-unavailable", d.hav => col("chosen but not available", ChNotAv(d), FALSE) /\ col("chosen but not available weighted", ChNotAv(d), TRUE)>> >>

\* utilities of a model on the data: the sum of k_n times the values, unavailable alternatives minus infinity
Utility(d, e, p) ==
  SumS([k \in 1..Len(e.xs) |-> Mul(e.xs[k][2], Col(d.xc, d.x[p], e.xs[k][1]))])
  + (IF p[2] = d.alts[1] THEN 0 ELSE SumS([k \in 1..Len(e.cs) |-> Mul(e.cs[k][2], Col(d.cc, d.co[p[1]], e.cs[k][1]))]))
ModelOK(d, e, o) ==
  LET on(p) == (d.hav => d.av[p] # 0) /\ (d.hx => p \in DOMAIN d.x)
  IN << <<"model-cases", o.cases = d.cases>>,
        <<"model-utility", o.cases = d.cases => Shape(o.u, Len(d.cases), Len(d.alts)) /\ \A i \in 1..Len(d.cases) : \A j \in 1..Len(d.alts) :
             LET p == <<d.cases[i], d.alts[j]>> IN
             IF on(p) THEN Close(o.u[i][j], Utility(d, e, p), 20) ELSE o.u[i][j] = NInf>> >>

Fits(n, parts, w) == LET tot == SumS(w) IN \A k \in 1..Len(parts) : Abs(Len(parts[k].cases) * tot - n * w[k]) <= 2 * tot

Judge(st, e) ==
  LET d == st[e.t] IN
  IF e.op = "make" /\ e.mustfail THEN << <<"other-cases-refused", e.err # "">> >>
  ELSE IF e.op = "make" /\ e.mayfail /\ e.err # "" THEN <<>>
  ELSE IF e.op # "make" /\ ~d.on THEN <<>>
  ELSE IF e.err # "" THEN << <<e.op \o "-works", FALSE>> >>
  ELSE CASE e.op = "make" -> Look(d, e.obs)
    [] e.op = "look" -> Look(d, e.obs)
    [] e.op = "select" -> Tag("part-", Look(st[e.to], e.obs)) \o Tag("original-", Look(d, e.obs.was))
    [] e.op = "store" -> Tag("loaded-", Look(st[e.to], e.obs)) \o Tag("original-", Look(d, e.obs.was))
    [] e.op = "prep" -> Tag("asked-", Look(st[e.to], e.obs)) \o Tag("original-", Look(d, e.obs.was))
    [] e.op = "part" ->
         LET ps == e.obs.parts
             flat == FlattenSeq([k \in 1..Len(ps) |-> ps[k].cases])
             ok == Len(ps) = Len(e.to) /\ \A k \in 1..Len(ps) : Rng(ps[k].cases) \subseteq Rng(d.cases)
         IN << <<"split-number", Len(ps) = Len(e.to)>>,
               <<"split-every-case-once", Len(flat) = Len(d.cases) /\ Rng(flat) = Rng(d.cases)>>,
               <<"split-in-order", e.how # "shuffle" => flat = d.cases>>,
               <<"split-sizes", Fits(Len(d.cases), ps, e.w)>> >>
            \o (IF ok THEN FlattenSeq([k \in 1..Len(ps) |-> Tag("part-", Look(st[e.to[k]], ps[k]))]) ELSE <<>>)
            \o Tag("original-", Look(d, e.obs.was))
    [] e.op \in {"scale", "auto", "unscale"} -> Look(d, e.obs)
    [] e.op = "conv" -> Conv(d, e.obs)
    [] e.op = "summary" -> Summary(d, e.obs)
    [] e.op = "model" -> ModelOK(d, e, e.obs)
    [] OTHER -> << <<"known-operation", FALSE>> >>

\* laws of the specification itself
LawTotals(d) == d.on => \A S \in {{}, Rng(d.cases)} : Part(d, S).cases = IF S = {} THEN <<>> ELSE d.cases
=============================================================================

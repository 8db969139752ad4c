------------------------------ MODULE FramesGen ------------------------------
(* Random collections of data, in every form and order, and what is derived from them. *)
EXTENDS Frames, Rand, Json
CONSTANTS Seed, NBeh, Depth, Prof
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

CaseLabels == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 31, 100, 205, 1000>>
AltLabels == <<1, 2, 3, 4, 5, 7, 9, 10, 12, 20>>
Ascending(sq) == SortSeq(sq, LAMBDA a, b : a < b)
Some(s, i, sq, n) == Ascending(SubSeq(Shuffle(Sub(s, i), sq), 1, n))
Order(s, i, sq) == IF Coin(s, i, 30) THEN sq ELSE Shuffle(Sub(s, i), sq)
Val(s, i) == IF Coin(s, i + 5, 12) THEN 0 ELSE (1 + Rnd(s, i, 40)) * 250000
Chosen(s, i, pct) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA k : Coin(s, i + k, pct))

Make(sd, t) ==
  LET s == TLCEval(sd)
      n == 2 + Rnd(s, 1, 4)
      na == 2 + Rnd(s, 2, 3)
      cases == TLCEval(IF Coin(s, 4, 25) THEN [k \in 1..n |-> k - 1] ELSE Some(s, 3, CaseLabels, n))
      alts == TLCEval(IF Coin(s, 5, 40) THEN [k \in 1..na |-> k] ELSE Some(s, 6, AltLabels, na))
      xk0 == Pick(s, 7, <<"none", "ca", "ca", "ca", "ce", "ce", "ce", "pos", "poss">>)
      hasco == xk0 = "none" \/ Coin(s, 8, 75)
      sparse == xk0 \in {"ce", "poss"}
      empties == hasco /\ sparse /\ Coin(s, 9, 25)      \* a case without any row
      pres == TLCEval(LET P0 == {p \in Pairs(Rng(cases), Rng(alts)) : (~sparse) \/ Coin(s, 1000 + p[1] * 31 + p[2], 70)}
                      IN P0 \cup (IF ~sparse THEN {} ELSE {<<cases[k], alts[1 + Rnd(s, 300 + k, na)]>> : k \in {j \in 1..n : ~(empties /\ j = 1 + Rnd(s, 11, n))}}))
      pseq == TLCEval(Order(s, 12, SetToSortSeq(pres, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))))
      avail(p) == p \in pres /\ Coin(s, 1500 + p[1] * 17 + p[2], 85)
      av == TLCEval([p \in Pairs(Rng(cases), Rng(alts)) |-> IF avail(p) THEN 1 ELSE 0])
      \* one choice each, mostly; sometimes shared, sometimes heavier than one, sometimes none
      chcode(c) == LET q == SelectSeq(alts, LAMBDA a : <<c, a>> \in pres) IN IF q = <<>> THEN alts[1] ELSE Pick(s, 1800 + c, q)
      odd == Coin(s, 13, 25)
      ch == TLCEval([p \in Pairs(Rng(cases), Rng(alts)) |->
              IF chcode(p[1]) = p[2] THEN (IF odd THEN Pick(s, 1900 + p[1], <<One, One, 2 * One, 500000, 0, 1250000>>) ELSE One)
              ELSE IF odd /\ p \in pres /\ Coin(s, 2000 + p[1] * 7 + p[2], 15) THEN 500000 ELSE 0])
      xc == Order(s, 14, SelectSeq(<<"tt", "cost", "picked", "wx", "open">>, LAMBDA v : v = "tt" \/ Coin(s, 15 + Len(v), 55)))
      wx(c) == (1 + Rnd(s, 2100 + c, 8)) * 250000
      xrow(p) == [k \in 1..Len(xc) |-> CASE xc[k] = "picked" -> ch[p] [] xc[k] = "wx" -> wx(p[1]) [] xc[k] = "open" -> av[p] * One [] OTHER -> Val(s, 2200 + p[1] * 41 + p[2] * 3 + k * 997)]
      xrows == [k \in 1..Len(pseq) |-> <<pseq[k][1], pseq[k][2], xrow(pseq[k])>>]
      cc == IF ~hasco THEN <<>> ELSE Order(s, 30, SelectSeq(<<"inc", "age", "w0", "code", "good">>, LAMBDA v : v = "inc" \/ Coin(s, 31 + Len(v) + (IF v = "age" THEN 7 ELSE IF v = "w0" THEN 9 ELSE 0), 60)))
      w0(c) == (1 + Rnd(s, 2500 + c, 8)) * 250000
      corow(c) == [k \in 1..Len(cc) |-> CASE cc[k] = "code" -> chcode(c) * One [] cc[k] = "w0" -> w0(c) [] cc[k] = "good" -> One * Rnd(s, 2600 + c, 2) [] OTHER -> Val(s, 2700 + c * 13 + k * 997)]
      corows == IF ~hasco THEN <<>> ELSE LET q == Order(s, 41, cases) IN [k \in 1..n |-> <<q[k], corow(q[k])>>]
      hasx == xk0 # "none"
      \* forms of the choice
      chk == Pick(s, 50, SelectSeq(<<"none", "wide", "wide", "wide", "tall", "frame", "xname", "coname", "array", "codes">>,
                 LAMBDA v : CASE v = "xname" -> hasx /\ "picked" \in Rng(xc) [] v = "coname" -> "code" \in Rng(cc) [] v = "array" -> hasx /\ sparse
                              [] v = "codes" -> {chcode(cases[k]) : k \in 1..n} = Rng(alts) /\ (hasco \/ ~sparse) [] OTHER -> TRUE))
      chcols == LET used == SelectSeq(alts, LAMBDA a : \E k \in 1..n : ch[<<cases[k], a>>] # 0)
                IN Order(s, 51, IF Coin(s, 52, 20) /\ hasx THEN used ELSE alts)
      tallrows(i, f, drop) == LET q == SetToSortSeq(Pairs(Rng(cases), Rng(alts)), LAMBDA p, r : p[1] < r[1] \/ (p[1] = r[1] /\ p[2] < r[2]))
                                  kept == SelectSeq(Order(s, i, q), LAMBDA p : (p \in pres \/ f[p] # 0) /\ (~drop \/ f[p] # 0 \/ Coin(s, 2900 + p[1] * 5 + p[2], 60)))
                              IN [k \in 1..Len(kept) |-> <<kept[k][1], kept[k][2], f[kept[k]]>>]
      chr == CASE chk = "wide" -> [k |-> "wide", cols |-> chcols, rows |-> LET q == Order(s, 53, cases) IN [k \in 1..n |-> <<q[k], [j \in 1..Len(chcols) |-> ch[<<q[k], chcols[j]>>]]>>]]
               [] chk \in {"tall", "frame"} -> [k |-> chk, rows |-> tallrows(54, ch, Coin(s, 55, 40))]
               [] chk = "array" -> [k |-> "array", rows |-> [k \in 1..Len(pseq) |-> <<pseq[k][1], pseq[k][2], ch[pseq[k]]>>]]
               [] chk = "xname" -> [k |-> "xname", n |-> "picked"]
               [] chk = "coname" -> [k |-> "coname", n |-> "code"]
               [] chk = "codes" -> [k |-> "codes", rows |-> LET q == Order(s, 56, cases) IN [k \in 1..n |-> <<q[k], chcode(q[k])>>]]
               [] OTHER -> [k |-> "none"]
      avk == Pick(s, 60, SelectSeq(<<"none", "true", "wide", "wide", "tall", "frame", "array", "dict", "xname">>,
                 LAMBDA v : CASE v = "true" -> ~sparse [] v = "array" -> hasx /\ sparse [] v = "dict" -> hasco /\ ~sparse
                              [] v = "xname" -> xk0 \in {"ca", "pos"} /\ "open" \in Rng(xc) [] OTHER -> TRUE))
      avcols == Order(s, 61, alts)
      avr == CASE avk = "wide" -> [k |-> "wide", cols |-> avcols, rows |-> LET q == Order(s, 62, cases) IN [k \in 1..n |-> <<q[k], [j \in 1..na |-> av[<<q[k], avcols[j]>>]]>>]]
               [] avk \in {"tall", "frame"} -> [k |-> avk, rows |-> tallrows(63, av, Coin(s, 64, 40))]
               [] avk = "array" -> [k |-> "array", rows |-> [k \in 1..Len(pseq) |-> <<pseq[k][1], pseq[k][2], av[pseq[k]]>>]]
               [] avk = "xname" -> [k |-> "xname", n |-> "open"]
               [] avk = "dict" -> [k |-> "dict", d |-> LET q == Order(s, 65, alts)
                                                       IN [k \in 1..Len(q) |-> <<q[k], Pick(s, 66 + k, << <<"k", One>>, <<">", <<"n", "inc">>, <<"k", 3 * One>> >>, <<"k", One>>,
                                                                                                           IF "good" \in Rng(cc) THEN <<"n", "good">> ELSE <<"k", One>> >>)>>]]
               [] avk = "true" -> [k |-> "true"]
               [] OTHER -> [k |-> "none"]
      wtk == Pick(s, 70, SelectSeq(<<"none", "none", "series", "frame", "coname", "xname">>, LAMBDA v : CASE v = "coname" -> "w0" \in Rng(cc) [] v = "xname" -> hasx /\ "wx" \in Rng(xc) /\ ~empties [] OTHER -> TRUE))
      wtr == CASE wtk \in {"series", "frame"} -> [k |-> wtk, rows |-> LET q == Order(s, 71, cases) IN [k \in 1..n |-> <<q[k], w0(q[k])>>]]
               [] wtk = "coname" -> [k |-> wtk, n |-> "w0"]
               [] wtk = "xname" -> [k |-> wtk, n |-> "wx"]
               [] OTHER -> [k |-> "none"]
      lev == IF hasx /\ Coin(s, 80, 15) /\ {p[2] : p \in pres} = Rng(alts) THEN Ascending(alts \o <<Pick(s, 81, SelectSeq(<<6, 8, 30>>, LAMBDA a : a \notin Rng(alts)))>>) ELSE alts
      anyalts == {p[2] : p \in pres} = Rng(alts) /\ lev = alts
      need == (~anyalts) \/ ~hasx
      codes == IF hasx /\ lev # alts THEN <<>>
               ELSE IF need \/ Coin(s, 82, 35) THEN alts ELSE <<>>
      names == IF codes # <<>> /\ Coin(s, 83, 40) THEN [k \in 1..na |-> "alt" \o ToString(alts[k])] ELSE <<>>
      mis0 == IF Coin(s, 86, 12) THEN Pick(s, 87, <<"ch", "av", "wt", "co">>) ELSE ""
      mis == CASE mis0 = "ch" /\ chk = "wide" -> "ch" [] mis0 = "av" /\ avk = "wide" -> "av" [] mis0 = "wt" /\ wtk \in {"series", "frame"} -> "wt"
               [] mis0 = "co" /\ hasco /\ hasx -> "co" [] OTHER -> ""
      off(f) == [f EXCEPT !.rows[1 + Rnd(s, 88, Len(f.rows))][1] = 77]
  IN [mis |-> mis, op |-> "make", t |-> t, cases |-> cases, alts |-> alts, lev |-> lev, codes |-> codes, names |-> names,
      co |-> [cols |-> cc, rows |-> IF mis = "co" THEN off([rows |-> corows]).rows ELSE corows],
      x |-> [k |-> IF xk0 = "poss" THEN "pos" ELSE xk0, cols |-> IF hasx THEN xc ELSE <<>>, rows |-> IF hasx THEN xrows ELSE <<>>],
      ch |-> IF mis = "ch" THEN off(chr) ELSE chr, av |-> IF mis = "av" THEN off(avr) ELSE avr, wt |-> IF mis = "wt" THEN off(wtr) ELSE wtr, comp |-> Coin(s, 84, 30), how |-> Rnd(s, 85, 4), mayfail |-> mis \in {"ch", "av"}, mustfail |-> mis \in {"wt", "co"}]

Slots == <<"A", "B", "C", "D", "E">>
\* columns that were asked for are called by the text of their expression
Text1(y) == IF y[1] = "n" THEN y[2] ELSE ToString(y[2] \div One)
Text(x) == CASE x[1] = "n" -> x[2] [] x[1] = "k" -> ToString(x[2] \div One) [] OTHER -> Text1(x[2]) \o " " \o x[1] \o " " \o Text1(x[3])
Base == {"tt", "cost", "picked", "wx", "open", "inc", "age", "w0", "code", "good"}
Expr(s, i, cols) ==
  LET a == <<"n", Pick(s, i, cols)>> b == <<"n", Pick(s, i + 1, cols)>>
  IN IF {a[2], b[2]} \subseteq Base THEN Pick(s, i + 2, <<a, a, <<"*", a, <<"k", 2 * One>> >>, <<"+", a, b>>, <<"+", a, <<"k", One>> >> >>) ELSE a
Named(s, i, cols, n) ==
  LET q == [k \in 1..n |-> LET x == Expr(s, i + 10 * k, cols) IN [n |-> Text(x), x |-> x]]
  IN IF n = 2 /\ q[1].n = q[2].n THEN <<q[1]>> ELSE q
Request(d, s) ==
  LET co == IF d.cc = <<>> \/ Coin(s, 10, 20) THEN <<>> ELSE Named(s, 11, d.cc, 1 + Rnd(s, 9, 2))
      \* (no name is both a column of the cases and one of the alternatives)
      ca == IF ~d.hx THEN <<>> ELSE SelectSeq(Named(s, 60, d.xc \o (IF Coin(s, 59, 40) THEN d.cc ELSE <<>>), 1 + Rnd(s, 8, 2)), LAMBDA v : \A k \in 1..Len(co) : co[k].n # v.n)
      good == SelectSeq(d.cc, LAMBDA v : v = "good")
      \* (a request for the choice or availability of alternatives without rows is the matter of the explicit forms)
      q == Order(s, 105, d.alts)
      ch == Pick(s, 102, SelectSeq(<<[k |-> "any"], [k |-> "code", n |-> "code"], [k |-> "ca", x |-> <<"n", "picked">>],
                                     [k |-> "co", d |-> [k \in 1..(IF Coin(s, 106, 25) THEN Len(q) - 1 ELSE Len(q)) |-> <<q[k], <<"==", <<"n", "code">>, <<"k", q[k] * One>> >> >>]]>>,
               LAMBDA v : CASE v.k \in {"code", "co"} -> "code" \in Rng(d.cc) [] v.k = "ca" -> "picked" \in Rng(d.xc) /\ (~d.hch \/ \A p \in DOMAIN d.x : d.ch[p] = Col(d.xc, d.x[p], "picked")) [] OTHER -> TRUE))
      av == Pick(s, 103, SelectSeq(<<[k |-> "any"], [k |-> "ca", x |-> <<"n", "open">>],
                                     [k |-> "co", d |-> [k \in 1..Len(q) |-> <<q[k], Pick(s, 110 + k, << <<"k", One>>, <<">", <<"n", "inc">>, <<"k", 3 * One>> >> >>)>>]]>>,
               LAMBDA v : CASE v.k = "ca" -> "open" \in Rng(d.xc) [] v.k = "co" -> d.cc # <<>> /\ "inc" \in Rng(d.cc) /\ DOMAIN d.x = {} [] OTHER -> TRUE))
      wt == Pick(s, 104, SelectSeq(<<[k |-> "any"], [k |-> "co", x |-> <<"n", "w0">>]>>, LAMBDA v : v.k = "any" \/ "w0" \in Rng(d.cc)))
  IN [co |-> co, ca |-> ca, ch |-> ch, av |-> av, wt |-> wt]

Coefs(s, i, cols) == [k \in 1..Len(cols) |-> <<cols[k], (Rnd(s, i + k, 9) - 4) * 250000>>]
Plain(cols) == SelectSeq(cols, LAMBDA n : n \notin {"code"})

Next1(st0, s, full) ==
  LET live == SelectSeq(Slots, LAMBDA x : st0[x].on)
      free == Pick(s, 1, Slots)
      to == IF \E x \in Rng(Slots) : ~st0[x].on THEN CHOOSE x \in Rng(Slots) : ~st0[x].on ELSE free
  IN IF live = <<>> \/ Rnd(s, 2, 100) < (IF Prof = "form" THEN 40 ELSE 8) THEN Make(Sub(s, 3), to)
     ELSE LET t == Pick(s, 4, live) d == st0[t]
              tt == IF to = t THEN Pick(s, 5, SelectSeq(Slots, LAMBDA x : x # t)) ELSE to
              w == Rnd(s, 6, 100)
              others == SelectSeq(Slots, LAMBDA x : x # t)
              sizes == Pick(s, 20, <<<<1, 1>>, <<1, 1>>, <<1, 1, 1>>, <<2, 1>>, <<1, 3>>, <<1, 1, 1, 1>>>>)
              look == [op |-> "look", t |-> t]
          IN IF Prof = "form"
             THEN CASE w < 35 -> [op |-> "conv", t |-> t]
                    [] w < 55 /\ d.hch -> [op |-> "summary", t |-> t]
                    [] w < 85 /\ d.hx /\ d.hch /\ d.hav -> [op |-> "model", t |-> t, xs |-> Coefs(s, 30, d.xc), cs |-> Coefs(s, 40, Plain(d.cc)), comp |-> FALSE]
                    [] w < 92 -> [op |-> "store", t |-> t, to |-> tt, how |-> Pick(s, 41, <<"dump", "feathers">>)]
                    [] OTHER -> look
             ELSE CASE w < 18 /\ Len(d.cases) >= Len(sizes) + (IF sizes = <<2, 1>> THEN 1 ELSE 0) -> [op |-> "part", t |-> t, w |-> sizes, to |-> [k \in 1..Len(sizes) |-> others[k]], how |-> Pick(s, 21, <<"simple", "shuffle", "copy">>), even |-> Coin(s, 22, 50)]
                    [] w < 34 /\ Rng(d.cc) \cap Base # {} /\ d.cases # <<>> ->
                         LET v == Pick(s, 23, SelectSeq(d.cc, LAMBDA n : n \in Base))
                             k == Col(d.cc, d.co[Pick(s, 24, d.cases)], v)
                         IN IF \E c \in Rng(d.cases) : Col(d.cc, d.co[c], v) = k
                            THEN [op |-> "select", t |-> t, to |-> tt, x |-> IF \E c \in Rng(d.cases) : Col(d.cc, d.co[c], v) > k /\ Coin(s, 25, 60) THEN <<">", <<"n", v>>, <<"k", k>> >> ELSE <<"==", <<"n", v>>, <<"k", k>> >>]
                            ELSE look
                    [] w < 50 /\ (d.hx \/ d.cc # <<>>) -> LET q == Request(d, Sub(s, 26)) IN IF q.co = <<>> /\ q.ca = <<>> THEN look ELSE [op |-> "prep", t |-> t, to |-> tt, q |-> q]
                    [] w < 68 -> [op |-> "store", t |-> t, to |-> tt, how |-> Pick(s, 41, <<"dump", "feathers">>)]
                    [] w < 76 /\ d.hch -> [op |-> "scale", t |-> t, v |-> Pick(s, 27, <<2 * One, 500000, One, 4 * One, 1250000>>)]
                    [] w < 84 /\ d.hch /\ \E c \in Rng(d.cases) : Total(d, c) > 0 -> [op |-> "auto", t |-> t]
                    [] w < 90 -> [op |-> "unscale", t |-> t]
                    [] w < 94 /\ d.hch -> [op |-> "summary", t |-> t]
                    [] w < 97 -> [op |-> "conv", t |-> t]
                    [] OTHER -> look

\* the generator follows the specification; where the observation decides (which cases a shuffled part has), it stops using the result
Follow(st0, e) ==
  CASE e.op = "make" -> [st0 EXCEPT ![e.t] = IF e.mis # "" THEN None ELSE Made(e)]
    [] e.op = "part" -> [s \in DOMAIN st0 |-> IF s \in Rng(e.to) THEN None ELSE st0[s]]
    [] OTHER -> Apply(st0, [err |-> ""] @@ e)

Init == /\ seed \in {Seed * 1000 + k : k \in 0..NBeh-1} /\ hist = <<>> /\ st = NilF
Next ==
  /\ Len(hist) < Depth
  /\ LET e == TLCEval(Next1(st, Sub(seed, 50 + 37 * Len(hist)), 0))
         s2 == TLCEval(Follow(st, e))
     IN /\ hist' = Append(hist, e)
        /\ st' = s2
        /\ IF Len(hist') = Depth THEN PrintT("BEHAVIOUR " \o ToJson(hist')) ELSE TRUE
  /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars
LawPart == \A t \in DOMAIN st : LawTotals(st[t])
=============================================================================

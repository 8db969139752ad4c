------------------------------ MODULE ScoresGen ------------------------------
(* Histories in which scores and summaries are asked for.                       *)
EXTENDS Scores, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

G(s) == [maxalt |-> 5, maxcase |-> 6, maxnest |-> Pick(s, 99, <<0, 2, 3>>), q |-> 20, multi |-> Pick(s, 98, <<0, 0, 40>>), multin |-> Pick(s, 97, <<0, 30>>),
      sharemu |-> 0, frac |-> 30, wt |-> 50, zq |-> 0, av |-> 75]
NoX == [p \in {} |-> 0]
Data(s, S) == LET D == TLCEval(GenData(G(s), s, S))
                  \* some choices of what is not available
                  odd(c, a) == D.av[c][a] = 0 /\ Coin(s, 3000 + 10 * c + a, 25)
              IN IF Coin(s, 1234, 60) THEN D
                 ELSE [D EXCEPT !.ch = TLCEval([c \in 1..D.n |-> TLCEval([a \in 1..NAlt(S) |-> IF odd(c, a) THEN One ELSE D.ch[c][a]])])]
NewOp(s) ==
  LET S == TLCEval(GenSpec(G(Sub(s, 1)), Sub(s, 1)))
      D == TLCEval(Data(Sub(s, 2), S))
  IN [op |-> "new", S |-> S, D |-> D, V |-> TLCEval(GenVals(Sub(s, 3), SpecNames(S))), H |-> <<>>, threads |-> 1, track |-> FALSE]

Levels == <<0, 100000, 250000, 250000, 250001, 400000, 900000, One>>
Wts == <<0, One, One, 0, 500000, 2 * One>>
Rows(s, n, m, f(_)) == FillSeq(n, LAMBDA i : FillSeq(m, LAMBDA j : f(10 * i + j)))
RankOp(s) == LET m == 1 + Rnd(s, 2, 6)  n == Rnd(s, 3, 5) IN
  [op |-> "rank", kind |-> Pick(s, 4, <<"arr", "df", "arr", "f32">>), m |-> Rows(s, n, m, LAMBDA k : Pick(s, 100 + k, Levels)), w |-> m]
RankInOp(s) == LET n == 1 + Rnd(s, 2, 9) IN
  [op |-> "rankin", g |-> FillSeq(n, LAMBDA i : 1 + Rnd(s, 10 + i, 3)), v |-> FillSeq(n, LAMBDA i : Pick(s, 30 + i, <<-One, 0, 250000, 250000, One, 2 * One>>)),
   perturb |-> Coin(s, 3, 30), out |-> Coin(s, 4, 50), ix |-> Pick(s, 5, <<"range", "same", "down">>)]
AccOp(s) == LET m == 1 + Rnd(s, 2, 5)  n == 1 + Rnd(s, 3, 4)
                one == Coin(s, 5, 40)
                perm(i) == Shuffle(Sub(s, 40 + i), FillSeq(m, LAMBDA a : a)) IN
  [op |-> "acc", kind |-> Pick(s, 4, <<"arr", "df", "mixed">>), m |-> FillSeq(n, LAMBDA i : perm(i)),
   ch |-> Rows(s, n, m, LAMBDA k : Pick(s, 200 + k, Wts)),
   one |-> one, np |-> Coin(s, 6, 40), ks |-> IF one THEN <<1 + Rnd(s, 7, m)>> ELSE SelectSeq(FillSeq(m, LAMBDA k : k), LAMBDA k : k = 1 \/ Coin(s, 60 + k, 60))]
X(g, s) == IF Coin(s, 1, 60) THEN NoX ELSE [p \in {q \in SpecNames(g.S) : Coin(s, 20 + NameIx(q), 60)} |-> GenVal(Sub(s, 40 + NameIx(p)), p)]
Xhow(x, s) == IF x = NoX THEN "none" ELSE Pick(s, 9, <<"dict", "vec">>)

GenOp(g, s) ==
  LET w == Rnd(s, 1, 24) IN
  IF w < 4 THEN RankOp(Sub(s, 2))
  ELSE IF w < 7 THEN RankInOp(Sub(s, 2))
  ELSE IF w < 10 THEN AccOp(Sub(s, 2))
  ELSE IF w < 13 THEN LET x == X(g, Sub(s, 3)) IN
       [op |-> "topk", x |-> x, xhow |-> Xhow(x, Sub(s, 4)), one |-> Coin(s, 5, 40), np |-> Coin(s, 6, 30),
        ks |-> IF Coin(s, 5, 40) THEN <<1 + Rnd(s, 7, 3)>> ELSE FillSeq(NAlt(g.S), LAMBDA k : k)]
  ELSE IF w < 14 THEN LET x == X(g, Sub(s, 3)) IN [op |-> "logloss", x |-> x, xhow |-> Xhow(x, Sub(s, 4))]
  ELSE IF w < 22 THEN LET ds == Coin(s, 3, 40)  ch == Coin(s, 4, 85) IN
       [op |-> "summary", ds |-> ds, graph |-> IF ds THEN FALSE ELSE Coin(s, 5, 65),
        noch |-> ~ch, noav |-> ch /\ Coin(s, 6, 15), nowt |-> Coin(s, 7, 30)]
  ELSE IF w < 23 THEN [op |-> "data", D |-> Data(Sub(s, 7), g.S)]
  ELSE GenEdit(g.S, Sub(s, 8)) @@ [look |-> TRUE]

Nil == [S |-> [alts |-> <<>>, nests |-> <<>>], D |-> [n |-> 0], V |-> NoX, H |-> {}]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = Nil
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist))))
           IN hist' = Append(hist, e) /\ st' = ApplyK(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* all choices are among the first k for k the number of alternatives, and the share grows with k
LastOp == hist[Len(hist)]
LawShare == (hist # <<>> /\ LastOp.op = "acc") =>
   LET e == LastOp  m == Len(e.m[1]) IN
     /\ Share(e.m, e.ch, m) \in {One, NaN}
     /\ \A k \in 1..m : k > 1 => (Share(e.m, e.ch, k) = NaN \/ Share(e.m, e.ch, k - 1) <= Share(e.m, e.ch, k))
=============================================================================

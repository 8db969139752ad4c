------------------------------ MODULE CodesGen ------------------------------
(* Histories of tables that get systematic alternatives, tables that get them  *)
(* again, and trees of nests that are made from them.                            *)
EXTENDS Codes, Rand, Json

CONSTANTS Seed, NBeh, Depth
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

\* rows in the order of the cases or not
Rows(s, nf, size) ==
  LET nc == 1 + Rnd(s, 1, 4)
      per(c) == Pick(s, 10 + c, <<1, 2, 3, 4, 5, 8>>)
      few == Coin(s, 2, 40)
      one(c) == FillSeq(per(c), LAMBDA i : [c |-> 3 * c, f |-> FillSeq(nf, LAMBDA k : 1 + Rnd(s, 100 * c + 10 * i + k, IF few /\ k = 1 THEN 1 ELSE size[k]))])
      RECURSIVE cat(_)
      cat(c) == IF c > nc THEN <<>> ELSE one(c) \o cat(c + 1)
  IN TLCEval(cat(1))
Form(s) == Pick(s, 1, <<"multi", "multi", "index", "col", "col", "other", "bare">>)
CodeOp(s) ==
  LET nf == Pick(s, 1, <<0, 1, 1, 2, 2, 2, 3>>)
      size == FillSeq(nf, LAMBDA k : 1 + Rnd(s, 2 + k, 4))
      nd == Pick(s, 8, <<1, 1, 1, 2, 2, 3>>)
      dfs == FillSeq(nd, LAMBDA d : LET r == Rows(Sub(s, 50 + d), nf, size) IN IF Coin(s, 30 + d, 25) THEN Shuffle(Sub(s, 40 + d), r) ELSE r)
      pad == Pick(s, 9, <<0, 0, 1, 2, 4, 4>>)
      \* complete lists, in any order, with values that do not occur
      comp == FillSeq(nf, LAMBDA k : IF Coin(s, 60 + k, 30) THEN Shuffle(Sub(s, 70 + k), FillSeq(size[k] + Rnd(s, 80 + k, 3), LAMBDA v : v)) ELSE <<>>)
      clash == Coin(s, 10, 25)
  IN [op |-> "code", kinds |-> FillSeq(nf, LAMBDA k : Pick(s, 90 + k, <<"str", "int">>)), dfs |-> dfs, pad |-> pad, comp |-> comp,
      pre |-> IF Coin(s, 11, 25) THEN FillSeq(nf, LAMBDA k : <<"A", "B=", "C ">>[k]) ELSE <<>>,
      forms |-> LET f == Form(Sub(s, 12)) IN FillSeq(nd, LAMBDA d : f), clash |-> clash, over |-> clash /\ Coin(s, 13, 50),
      aslist |-> nd > 1 \/ Coin(s, 14, 25), named |-> Coin(s, 15, 50)]
\* some of the rows of before, in other cases and another order, and some others
AgainOp(b, s) ==
  LET nf == Len(b.kinds)
      old == SelectSeq(FillSeq(Len(b.dfs[1]), LAMBDA i : i), LAMBDA i : Coin(s, 20 + i, 60))
      ren(c) == 3 * (1 + (((c \div 3) + Rnd(s, 1, 5)) % 5))
      cats == TLCEval(AllCats(b))
      extra == IF Coin(s, 2, 50) THEN <<[c |-> 99, f |-> FillSeq(nf, LAMBDA k : Pick(s, 5 + k, cats[k]))]>> ELSE <<>>
      rows == [i \in 1..Len(old) |-> [b.dfs[1][old[i]] EXCEPT !.c = ren(@)]] \o extra
  IN [op |-> "again", kinds |-> b.kinds, dfs |-> <<IF rows = <<>> THEN <<[c |-> 99, f |-> b.dfs[1][1].f]>> ELSE IF Coin(s, 3, 30) THEN Shuffle(Sub(s, 4), rows) ELSE rows>>,
      forms |-> <<Form(Sub(s, 12))>>, clash |-> Coin(s, 13, 20), over |-> FALSE]
NestOp(b, s) ==
  LET nf == Len(b.kinds)  cov == FillSeq(nf, LAMBDA k : IF b.pad > 0 /\ Coin(s, k, 40) THEN 1 + Rnd(s, 10 + k, 1 + b.pad) ELSE 1)
      own == Coin(s, 20, 50) IN
  [op |-> "nest", cover |-> cov, own |-> own, mu |-> FillSeq(nf, LAMBDA k : (IF own THEN "own" ELSE "MU_") \o <<"f1", "f2", "f3">>[k]), plain |-> Coin(s, 21, 60)]
FramesOp(s) == LET e == CodeOp(s)  r == FillSeq(Len(e.dfs[1]), LAMBDA i : e.dfs[1][i]) IN
  [e EXCEPT !.op = "frames", !.kinds = FillSeq(Len(e.kinds), LAMBDA k : "num"), !.dfs = <<SortSeq(r, LAMBDA a, b : a.c < b.c)>>, !.clash = FALSE, !.over = FALSE, !.aslist = FALSE, !.forms = <<"multi">>] @@
  [ch |-> FillSeq(Len(e.dfs[1]), LAMBDA i : IF Coin(s, 300 + i, 30) THEN 1 ELSE 0)]
GenOp(g, s) ==
  LET w == Rnd(s, 1, 12) IN
  IF g.c = <<>> \/ w < 4 THEN CodeOp(Sub(s, 2))
  ELSE IF w < 7 THEN AgainOp(LastCode(g), Sub(s, 3))
  ELSE IF w < 10 THEN NestOp(LastCode(g), Sub(s, 4))
  ELSE FramesOp(Sub(s, 5))

Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = St0
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(GenOp(st, Sub(seed, 1000 * (1 + Len(hist)))))
           IN hist' = Append(hist, e) /\ st' = Apply(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a name belongs to one alternative; without reach beyond, every alternative is in one nest of each level
LawNames == st.c # <<>> =>
  LET b == LastCode(st)  cats == TLCEval(AllCats(b))  keys == TLCEval(KeysOf(b.dfs)) IN
  /\ Cardinality({AltName(b, cats, x) : x \in keys}) = Cardinality(keys)
  /\ \A l \in 1..Len(b.kinds) : \A x \in keys :
       Cardinality({n \in NestsAt(cats, keys, [i \in 1..Len(b.kinds) |-> 0], l) : InNest(n, QOf(cats, x.f), [i \in 1..Len(b.kinds) |-> 0])}) = 1
=============================================================================

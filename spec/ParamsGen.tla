----------------------------- MODULE ParamsGen -----------------------------
(* Histories of a parameter frame (Prof = "frame") and of constraints (Prof = "cons"). *)
EXTENDS Params, Rand, Json
CONSTANTS Seed, NBeh, Depth, Prof
VARIABLES seed, hist, st, fresh     \* fresh: names of terms that may not be scanned yet
vars == <<seed, hist, st, fresh>>

UNames == <<"asc:b", "b1", "c2", "e1", "m", "tt", "x#2", "z", "Z9", "cost&inc">>
QN == <<"q1", "q2", "a_size">>
SN == <<"theta", "omega">>
NN == <<"mu1", "mu2", "bb_mu">>
Val(s, i) == (Rnd(s, i, 33) - 16) * 250000
Pos(s, i) == (1 + Rnd(s, i, 12)) * 250000
Fld == <<"v", "i", "n", "lo", "hi", "h", "t">>
Field(s, k) == LET f == Fld[k] IN
  CASE f = "lo" -> IF Coin(s, 10, 20) THEN NInf ELSE -Pos(s, 11) * 2
    [] f = "hi" -> IF Coin(s, 12, 20) THEN PInf ELSE Pos(s, 13) * 2
    [] f = "h"  -> Rnd(s, 14, 2)
    [] f = "t"  -> Pick(s, 15, <<"some note", "other">>)
    [] OTHER -> Val(s, 20 + k)
Fields(s, n) == LET ks == {k \in 1..7 : Coin(s, 100 + k, IF k = 1 THEN 60 ELSE IF k = 6 THEN 35 ELSE 20)}
                    kk == IF ks = {} THEN {1} ELSE ks
                IN [f \in {Fld[k] : k \in kk} |-> Field(s, CHOOSE k \in kk : Fld[k] = f)]
Some(s, i, S, pct) == LET q == SetToSeq(S) IN Rng(SelectSeq(q, LAMBDA n : Coin(s, i + (CHOOSE k \in 1..Len(q) : q[k] = n), pct)))
MapOf(s, S) == LET q == SetToSeq(S) IN [n \in S |-> Val(s, 300 + (CHOOSE k \in 1..Len(q) : q[k] = n))]

LookOf(s) == IF Coin(s, 900, 25) THEN <<>>
             ELSE SelectSeq(<<"pf", "pvals", "gv", "bounds", "hold", "row", "ncons">>, LAMBDA x : x = "pf" \/ Coin(s, 910 + (CASE x = "pvals" -> 1 [] x = "gv" -> 2 [] x = "bounds" -> 3 [] x = "hold" -> 4 [] x = "row" -> 5 [] OTHER -> 6), 35))
SomeNames(s, i, k) == LET q == Shuffle(Sub(s, i), UNames) IN SubSeq(q, 1, k)

EditOp(t, fr, s) ==
  LET w == Rnd(s, 1, 16)
      rm == fr = {}
  IN CASE w < 3 -> [op |-> "edit", ed |-> "ca_add", n |-> Pick(s, 2, UNames), how |-> Rnd(s, 3, 3)]
       [] w < 5 -> [op |-> "edit", ed |-> "co_add", n |-> Pick(s, 2, UNames), how |-> Rnd(s, 3, 2)]
       [] w < 8 /\ rm /\ t.ca # <<>> -> [op |-> "edit", ed |-> "ca_del", n |-> Pick(s, 2, t.ca), how |-> 0]
       [] w < 9 /\ rm /\ t.co # <<>> -> [op |-> "edit", ed |-> "co_del", n |-> Pick(s, 2, t.co), how |-> 0]
       [] w < 11 /\ (rm \/ {25, 26} \cap DOMAIN t.ls = {}) -> [op |-> "edit", ed |-> "nest", code |-> 20 + Rnd(s, 2, 2) + (IF rm THEN 0 ELSE 5), n |-> Pick(s, 3, NN), how |-> 0]
       [] w = 11 /\ rm /\ DOMAIN t.ls # {} -> [op |-> "edit", ed |-> "unnest", code |-> PickS(s, 2, DOMAIN t.ls), how |-> 0]
       [] w = 12 -> [op |-> "edit", ed |-> "q_add", n |-> Pick(s, 2, QN), how |-> 0]
       [] w = 13 /\ rm -> [op |-> "edit", ed |-> "q_clear", how |-> 0]
       [] w = 14 /\ rm -> [op |-> "edit", ed |-> "qs", n |-> Pick(s, 2, <<"theta", "omega", "">>), how |-> 0]
       [] w = 15 /\ rm -> [op |-> "edit", ed |-> "lam", n |-> Pick(s, 2, <<"lam", "">>), how |-> 0]
       [] OTHER -> [op |-> "edit", ed |-> "ca_add", n |-> Pick(s, 2, UNames), how |-> 0]

ValsOp(t, s) ==
  LET names == DOMAIN t.F
      as == Pick(s, 2, <<"vec", "list", "dict", "kw", "both", "scalar", "null", "init", "initial", "dict", "vec", "kw", "short", "long", "best">>)
      m == MapOf(s, names)
      bad == Coin(s, 3, 12) /\ as \in {"vec", "list"} /\ names # {}
      part == MapOf(Sub(s, 5), Some(s, 600, names, 40))
      kw == IF as \in {"dict", "kw", "both"} THEN (IF Coin(s, 6, 15) THEN part @@ ("nobody" :> One) ELSE part)
            ELSE IF as \in {"vec", "scalar", "null"} /\ Coin(s, 7, 20) THEN part ELSE <<>>
  IN [op |-> "vals", as |-> as, m |-> IF bad THEN [m EXCEPT ![PickS(s, 8, names)] = NaN] ELSE m,
      v |-> Val(s, 9), kw |-> kw, resp |-> ~Coin(s, 10, 30)]

\* (the algebra of expressions is the matter of Linear.tla)
Expr(s, names) ==
  LET p == <<"p", PickS(s, 3, names)>>
      q == <<"p", PickS(s, 4, names)>>
      k == <<"k", Pos(s, 5)>>
  IN Pick(s, 6, <<p, <<"+", p, q>>, <<"-", p, q>>, <<"*", p, k>>, <<"/", p, k>>, <<"+", p, k>>, <<"/", p, q>>, <<"*", p, q>> >>)

FrameOp(t, fr, s) ==
  LET names == DOMAIN t.F
      w == Rnd(s, 1, 30)
      n == PickS(s, 2, names)
      one(k) == [n |-> PickS(Sub(s, 40 + k), 1, names), f |-> Fields(Sub(s, 50 + k), 0)]
      kinds == SelectSeq(<<1, 2, 3, 4, 5>>, LAMBDA k : Coin(s, 700 + k, 50))
  IN CASE w < 6  -> [op |-> "setv", n |-> n, f |-> Fields(Sub(s, 3), n), how |-> Rnd(s, 4, 3)]
       [] w < 9  -> [op |-> "lock", note |-> Pick(s, 5, <<"", "", "fixed here">>), how |-> Rnd(s, 6, 3),
                     ls |-> [k \in 1..(1 + Rnd(s, 7, 2)) |-> [n |-> IF k = 1 THEN n ELSE PickS(s, 8, names \ (IF Cardinality(names) > 1 THEN {n} ELSE {})),
                                                              as |-> Pick(s, 9 + k, <<"val", "here", "null">>), v |-> Val(s, 12 + k)]]]
       [] w < 10 -> [op |-> "setv", n |-> n, f |-> [h |-> 0], how |-> 0]
       [] w < 17 -> ValsOp(t, s)
       [] w < 18 -> [op |-> "shift", as |-> Pick(s, 3, <<"vec", "scalar">>), m |-> MapOf(s, names), v |-> Val(s, 4)]
       [] w < 19 -> [op |-> "cap", v |-> Pos(s, 3) * 4]
       [] w < 20 -> [op |-> "batch", xs |-> <<one(1), one(2)>>]
       [] w < 21 /\ fr = {} -> [op |-> "unused"]
       [] w = 21 -> [op |-> "psort"]
       [] w = 22 -> [op |-> "frame", xs |-> IF Coin(s, 3, 50) THEN <<one(1)>> ELSE <<>>, drop |-> <<>>]
       [] w = 23 /\ fr = {} -> LET d == Some(s, 500, names, 25) IN [op |-> "frame", xs |-> <<>>, drop |-> SetToSeq(d)]
       [] w = 24 -> [op |-> "expr", xs |-> [k \in 1..2 |-> Expr(Sub(s, 20 + k), names)]]
       [] w = 25 -> [op |-> "cats", cats |-> [k \in 1..Len(kinds) |-> SelectSeq(UNames \o NN \o QN, LAMBDA x : Coin(s, 800 + 20 * kinds[k] + (CHOOSE y \in 1..16 : (UNames \o NN \o QN)[y] = x), 30))]]
       [] OTHER -> EditOp(t, fr, s)

-----------------------------------------------------------------------------
Lim(s, i) == Pick(s, i, <<0, 250000, 500000, 1000000, 2000000, 4000000, -500000, -1000000, -2000000>>)
Third(s) == Pick(s, 1, <<333333, 666667, 100000>>)
PosDen == {"m", "tt"}       \* bounded below by zero
NegDen == {"z"}             \* bounded above by zero
FreeN == <<"asc:b", "b1", "c2", "e1", "x#2", "Z9", "cost&inc">>
ConOf(t, s) ==
  LET k == Pick(s, 1, <<"ord", "fix", "fix", "ratio", "ratio", "ratio">>)
      names == DOMAIN t.F
      two == Coin(s, 2, 40)
      odd == Coin(s, 3, 15)
      a == IF odd THEN Third(Sub(s, 4)) ELSE Lim(s, 5)
      b == a + Pos(s, 6)
      lo == IF two \/ Coin(s, 7, 50) THEN <<a>> ELSE <<>>
      hi == IF two \/ lo = <<>> THEN <<b>> ELSE <<>>
      dens == names \cap (PosDen \cup NegDen)
      p == PickS(s, 8, names)
      qs == (IF k = "ratio" THEN dens ELSE names) \ {p}
  IN IF k # "fix" /\ qs # {} THEN [k |-> k, p |-> p, q |-> PickS(s, 9, qs), lo |-> IF k = "ord" THEN <<>> ELSE lo, hi |-> IF k = "ord" THEN <<>> ELSE hi, sharp |-> k = "ord" \/ ~odd]
     ELSE [k |-> "fix", p |-> p, q |-> "", lo |-> lo, hi |-> hi, sharp |-> ~odd]
\* values that often sit at a limit
PointOf(t, s) ==
  LET names == DOMAIN t.F
      q == SetToSeq(names)
      base == [n \in names |-> LET i == CHOOSE k \in 1..Len(q) : q[k] = n
                               IN IF n \in PosDen THEN Pos(s, i) ELSE IF n \in NegDen THEN -Pos(s, i) ELSE Val(s, i)]
      lim(c) == IF c.k = "ratio" THEN (IF c.lo # <<>> /\ (c.hi = <<>> \/ Coin(s, 40, 50)) THEN c.lo[1] ELSE c.hi[1]) ELSE 0
  IN IF t.C = <<>> \/ Coin(s, 41, 30) THEN base
     ELSE LET c == Pick(s, 42, t.C)
          IN CASE c.k = "ord" -> IF c.p \in PosDen \cup NegDen \/ c.q \in PosDen \cup NegDen THEN base ELSE [base EXCEPT ![c.p] = base[c.q]]
               [] c.k = "fix" -> IF c.p \in PosDen \cup NegDen THEN base ELSE [base EXCEPT ![c.p] = IF c.lo = <<>> \/ (c.hi # <<>> /\ Coin(s, 43, 50)) THEN c.hi[1] ELSE c.lo[1]]
               [] OTHER -> IF c.p \in PosDen \cup NegDen THEN base ELSE [base EXCEPT ![c.p] = Mul(lim(c), base[c.q])]
ConOp(t, fr, s) ==
  LET w == Rnd(s, 1, 20)
      n == Len(t.C)
      text == Rnd(s, 2, 16)
  IN CASE w < 5 \/ n = 0 -> [op |-> "cons", how |-> "append", c |-> ConOf(t, Sub(s, 3)), text |-> text]
       [] w < 7 -> [op |-> "cons", how |-> "insert", k |-> 1 + Rnd(s, 4, n + 1), c |-> ConOf(t, Sub(s, 3)), text |-> text, neg |-> Coin(s, 9, 40)]
       [] w < 9 -> [op |-> "cons", how |-> "put", k |-> 1 + Rnd(s, 4, n), c |-> ConOf(t, Sub(s, 3)), text |-> text, neg |-> Coin(s, 9, 40)]
       [] w = 9 -> [op |-> "cons", how |-> "del", k |-> 1 + Rnd(s, 4, n)]
       [] w = 10 -> [op |-> "cons", how |-> "set", cs |-> [k \in 1..(1 + Rnd(s, 5, 3)) |-> ConOf(t, Sub(s, 30 + k))]]
       [] w = 11 /\ Coin(s, 5, 30) -> [op |-> "cons", how |-> "clear"]
       [] w = 12 -> [op |-> "cons", how |-> "rescale", k |-> Rnd(s, 4, n + 1), v |-> Pick(s, 5, <<500000, 2000000, 8000000>>)]
       [] w < 16 -> [op |-> "edit", ed |-> Pick(s, 6, <<"ca_add", "co_add">>), n |-> Pick(s, 7, UNames), how |-> Rnd(s, 8, 2)]
       [] w = 16 /\ fr = {} /\ t.ca # <<>> -> [op |-> "edit", ed |-> "ca_del", n |-> Pick(s, 6, t.ca), how |-> 0]
       [] w = 17 -> [op |-> "edit", ed |-> "nest", code |-> 20, n |-> "bb_mu", how |-> 0]
       [] w = 18 -> [op |-> "psort"]
       [] OTHER -> [op |-> "vals", as |-> "dict", m |-> <<>>, v |-> 0, resp |-> TRUE, kw |-> PointOf(t, Sub(s, 60))]

NewOp(s) ==
  LET n == 2 + Rnd(s, 1, 4)
      ns == SomeNames(s, 2, n)
      base == [op |-> "new", ca |-> IF Prof = "cons" THEN ns \o <<"m", "z", "tt">> ELSE ns, co |-> IF Coin(s, 3, 50) THEN SomeNames(s, 4, 2) ELSE <<>>, cs |-> <<>>, how |-> Rnd(s, 5, 3)]
  IN IF Prof = "cons" /\ Coin(s, 6, 40) THEN [base EXCEPT !.cs = <<[k |-> "ord", p |-> ns[1], q |-> ns[2], lo |-> <<>>, hi |-> <<>>, sharp |-> TRUE]>>] ELSE base

\* in the second and third event of a constraint history the denominators get their bounds
Bounds == <<[op |-> "batch", xs |-> <<[n |-> "m", f |-> [lo |-> 0, v |-> One]], [n |-> "tt", f |-> [lo |-> 0, hi |-> 8000000, v |-> One]],
                                     [n |-> "z", f |-> [hi |-> 0, v |-> -One]]>>]>>
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = EmptyT /\ fresh = {}
Op(s) == IF hist = <<>> THEN NewOp(s)
         ELSE IF Prof = "frame" THEN (IF DOMAIN st.F = {} THEN EditOp(st, fresh, s) ELSE FrameOp(st, fresh, s))
         ELSE IF Len(hist) = 1 THEN Bounds[1]
         ELSE IF Len(hist) % 3 = 0 THEN [op |-> "eval", x |-> PointOf(st, s)]
         ELSE ConOp(st, fresh, s)
Next == /\ Len(hist) < Depth
        /\ LET s == Sub(seed, 1000 * Len(hist))
               e == TLCEval(Op(s) @@ [look |-> IF Prof = "cons" THEN (IF Coin(s, 901, 50) THEN <<>> ELSE <<"pf", "ncons">>) ELSE LookOf(Sub(s, 5))])
               s2 == TLCEval(Apply(st, e))
           IN /\ hist' = Append(hist, e) /\ st' = s2 /\ UNCHANGED seed
              /\ fresh' = IF e.op = "frame" /\ e.look = <<>> THEN Rng(e.drop) ELSE IF e.op \in {"edit", "new"} /\ e.look = <<>> THEN fresh \cup (DOMAIN s2.F \ DOMAIN st.F) ELSE IF e.look # <<>> \/ e.op \in {"vals", "unused", "psort", "frame", "eval", "cap", "shift"} THEN {} ELSE fresh
              /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* laws: what is in use has a record, whatever is not mentioned by an operation keeps its record
LawUsed == Used(st) \subseteq DOMAIN st.F
LawLocked == \A n \in DOMAIN st.F : st.F[n].h = 0 \/ st.F[n].h = 1
=============================================================================

----------------------------- MODULE LinearGen -----------------------------
EXTENDS Linear, Rand, Json
CONSTANTS Seed, NBeh, Depth, Prof
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

PN == <<"a", "b", "c">>
XN == <<"x", "y", "z">>
Vs == <<-2 * One, -1250000, -500000, 500000, 750000, One, 1500000, 2 * One, -One, 250000>>
NVals(s) == FillSeq(3, LAMBDA i : [P |-> [p \in {"a", "b", "c"} |-> Pick(s, 10 * i + (CHOOSE k \in 1..3 : PN[k] = p), Vs)],
                                   X |-> [x \in {"x", "y", "z"} |-> Pick(s, 10 * i + 5 + (CHOOSE k \in 1..3 : XN[k] = x), Vs)]])
Nums == <<2 * One, -One, 500000, One, 0, -3 * One, 1500000>>

RECURSIVE Tree(_, _)
Leaf(s) == LET w == Rnd(s, 1, 7)
           IN IF w < 3 THEN [k |-> "p", n |-> Pick(s, 2, PN)] ELSE IF w < 5 THEN [k |-> "x", n |-> Pick(s, 3, XN)] ELSE [k |-> "n", v |-> Pick(s, 4, Nums)]
Tree(s, d) ==
  IF d = 0 \/ Coin(s, 1, 15) THEN Leaf(Sub(s, 2))
  ELSE LET w == Rnd(s, 3, 24)
       IN IF w = 0 THEN [k |-> "neg", a |-> Tree(Sub(s, 4), d - 1)]
          ELSE IF w = 1 THEN [k |-> "pow", a |-> Tree(Sub(s, 4), d - 1), e |-> 2 + Rnd(s, 5, 2)]
          ELSE IF w = 2 THEN [k |-> "pos", a |-> Tree(Sub(s, 4), d - 1)]
          ELSE [k |-> Pick(s, 6, <<"+", "+", "+", "-", "-", "-", "*", "*", "*", "*", "/", "/">>), a |-> Tree(Sub(s, 7), d - 1), b |-> Tree(Sub(s, 8), d - 1)]
\* expressions of parameters only, and of terms, so that most are accepted
RECURSIVE PTree(_, _)
PTree(s, d) ==
  IF d = 0 \/ Coin(s, 1, 15) THEN (IF Coin(s, 9, 70) THEN [k |-> "p", n |-> Pick(s, 2, PN)] ELSE [k |-> "n", v |-> Pick(s, 4, Nums)])
  ELSE [k |-> Pick(s, 6, <<"+", "+", "-", "-", "-", "*", "*", "/", "/">>), a |-> PTree(Sub(s, 7), d - 1), b |-> PTree(Sub(s, 8), d - 1)]
RECURSIVE XTree(_, _)
XTree(s, d) ==
  IF d = 0 \/ Coin(s, 1, 15) THEN (IF Coin(s, 9, 75) THEN [k |-> "x", n |-> Pick(s, 2, XN)] ELSE [k |-> "n", v |-> Pick(s, 4, Nums)])
  ELSE LET w == Rnd(s, 3, 10)
       IN IF w = 0 THEN [k |-> "neg", a |-> XTree(Sub(s, 4), d - 1)]
          ELSE IF w = 1 THEN [k |-> "pow", a |-> XTree(Sub(s, 4), d - 1), e |-> 2 + Rnd(s, 5, 2)]
          ELSE [k |-> Pick(s, 6, <<"+", "-", "-", "*", "*", "/">>), a |-> XTree(Sub(s, 7), d - 1), b |-> XTree(Sub(s, 8), d - 1)]
RECURSIVE LTree(_, _)
LTree(s, d) ==
  IF d = 0 THEN LET p == [k |-> "p", n |-> Pick(s, 2, PN)]  x == XTree(Sub(s, 3), Rnd(s, 4, 3))  w == Rnd(s, 5, 5)
                IN IF w = 0 THEN p ELSE IF w = 1 THEN [k |-> "*", a |-> x, b |-> p]
                   ELSE IF w = 2 THEN [k |-> "*", a |-> [k |-> "*", a |-> [k |-> "n", v |-> Pick(s, 7, Nums)], b |-> p], b |-> x]
                   ELSE IF w = 3 THEN [k |-> "/", a |-> p, b |-> x]
                   ELSE [k |-> "*", a |-> p, b |-> x]
  ELSE LET w == Rnd(s, 6, 9)
       IN IF w = 0 THEN [k |-> "neg", a |-> LTree(Sub(s, 7), d - 1)]
          ELSE IF w = 1 THEN [k |-> "*", a |-> [k |-> "n", v |-> Pick(s, 7, Nums)], b |-> LTree(Sub(s, 7), d - 1)]
          ELSE IF w = 2 THEN [k |-> "*", a |-> LTree(Sub(s, 7), d - 1), b |-> XTree(Sub(s, 8), 1)]
          ELSE IF w = 3 THEN [k |-> "*", b |-> LTree(Sub(s, 7), d - 1), a |-> XTree(Sub(s, 8), 1)]
          ELSE [k |-> IF w < 7 THEN "+" ELSE "-", a |-> LTree(Sub(s, 7), d - 1), b |-> LTree(Sub(s, 8), d - 1)]

RandTree(s) == LET w == Rnd(s, 1, 4)  d == 1 + Rnd(s, 2, 3) IN IF w = 0 THEN Tree(Sub(s, 3), d) ELSE IF w = 1 THEN PTree(Sub(s, 3), d) ELSE IF w = 2 THEN XTree(Sub(s, 3), d) ELSE LTree(Sub(s, 3), d - 1)

\* histories of functions
VN == <<"f", "g", "h">>
Scl == <<One, One, One, 2 * One, -One, 500000>>
DataX(s) == LET w == Rnd(s, 1, 8) IN IF w = 0 THEN OneX ELSE IF w = 1 THEN [k |-> "*", a |-> [k |-> "x", n |-> Pick(s, 2, XN)], b |-> [k |-> "x", n |-> Pick(s, 3, XN)]]
                                     ELSE IF w = 2 THEN [k |-> "+", a |-> [k |-> "x", n |-> Pick(s, 2, XN)], b |-> [k |-> "x", n |-> Pick(s, 3, XN)]]
                                     ELSE [k |-> "x", n |-> Pick(s, 2, XN)]
T1(s) == [p |-> Pick(s, 1, PN), x |-> DataX(Sub(s, 2)), s |-> Pick(s, 3, Scl)]
Ts(s, n) == FillSeq(n, LAMBDA i : T1(Sub(s, 30 + i)))
VarOp(t, s) ==
  LET n == Pick(s, 1, VN)
      have == SelectSeq(VN, LAMBDA x : x \in DOMAIN t.v)
      m == Pick(s, 2, have)   w == Pick(s, 3, have)
      L == Len(Of(t, m))
      h == Rnd(s, 4, 6)
      k == 1 + Rnd(s, 5, L)
      op == Pick(s, 6, <<"let", "bind", "iadd", "iadd", "iaddv", "insert", "put", "cut", "rmp", "rmx", "copy", "copy", "neg", "add", "sub", "addt", "subt", "scale", "timesx", "rename">>)
  IN IF have = <<>> \/ op = "let" THEN [op |-> "let", n |-> n, ts |-> Ts(Sub(s, 7), 1 + Rnd(s, 8, 3)), how |-> h]
     ELSE IF op = "bind" THEN [op |-> op, n |-> n, m |-> m]
     ELSE IF op = "iadd" THEN [op |-> op, n |-> m, ts |-> Ts(Sub(s, 7), IF h < 3 THEN 1 ELSE Rnd(s, 8, 3)), how |-> h]
     ELSE IF op = "iaddv" THEN IF L + Len(Of(t, w)) > 9 THEN [op |-> "let", n |-> m, ts |-> Ts(Sub(s, 7), 1), how |-> h] ELSE [op |-> op, n |-> m, m |-> w, how |-> h]
     ELSE IF op = "insert" THEN [op |-> op, n |-> m, k |-> 1 + Rnd(s, 5, L + 1), ts |-> Ts(Sub(s, 7), 1)]
     ELSE IF op \in {"put", "cut", "rmp", "rmx"} /\ L = 0 THEN [op |-> "iadd", n |-> m, ts |-> Ts(Sub(s, 7), 1), how |-> h]
     ELSE IF op = "put" THEN [op |-> op, n |-> m, k |-> k, ts |-> Ts(Sub(s, 7), 1)]
     ELSE IF op = "cut" THEN [op |-> op, n |-> m, k |-> k]
     ELSE IF op = "rmp" THEN [op |-> op, n |-> m, p |-> Of(t, m)[k].p]
     ELSE IF op = "rmx" THEN [op |-> op, n |-> m, x |-> [k |-> "x", n |-> Pick(s, 9, XN)]]
     ELSE IF op = "copy" THEN [op |-> op, n |-> n, m |-> m, how |-> Rnd(s, 10, 9)]
     ELSE IF op = "neg" THEN [op |-> op, n |-> n, m |-> m]
     ELSE IF op \in {"add", "sub"} THEN IF L + Len(Of(t, w)) > 9 THEN [op |-> "neg", n |-> n, m |-> m] ELSE [op |-> op, n |-> n, m |-> m, w |-> w]
     ELSE IF op \in {"addt", "subt"} THEN IF L > 8 THEN [op |-> "let", n |-> m, ts |-> Ts(Sub(s, 7), 1), how |-> h] ELSE [op |-> op, n |-> n, m |-> m, ts |-> Ts(Sub(s, 7), 1), left |-> Coin(s, 11, 50)]
     ELSE IF op = "scale" THEN [op |-> op, n |-> n, m |-> m, s |-> Pick(s, 12, <<2 * One, -One, 500000, One>>), left |-> Coin(s, 11, 50)]
     ELSE IF op = "timesx" THEN [op |-> op, n |-> n, m |-> m, x |-> [k |-> "x", n |-> Pick(s, 9, XN)], left |-> Coin(s, 11, 50)]
     ELSE [op |-> op, n |-> n, m |-> m, map |-> Pick(s, 13, <<[a |-> "b"], [b |-> "c"], [c |-> "a"]>>)]

NewOp(s) == [op |-> "new", vals |-> NVals(s)]
\* scales and terms stay in range
Fits(t) == \A i \in 1..Len(t.o) : \A j \in 1..Len(t.o[i]) : Abs(t.o[i][j].s) < 100 * One
GenOp(t, s) == IF Prof = "expr" THEN [op |-> "expr", t |-> RandTree(s)]
               ELSE LET e == VarOp(t, s) IN IF Fits(Apply(t, e)) THEN e ELSE [op |-> "let", n |-> e.n, ts |-> Ts(Sub(s, 7), 1), how |-> 0]
Init == seed \in {Seed * 7919 + i : i \in 1..NBeh} /\ hist = <<>> /\ st = NilL
Next == /\ Len(hist) < Depth
        /\ LET e == TLCEval(IF hist = <<>> THEN NewOp(seed) ELSE GenOp(st, Sub(seed, 1000 * Len(hist))))
           IN hist' = Append(hist, e) /\ st' = Apply(st, e)
        /\ UNCHANGED seed
        /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
\* laws of the arithmetic of terms
LawNeg == \A n \in DOMAIN st.v : \A i \in 1..Len(st.vals) :
            LET a == SumDen(Of(st, n), st.vals[i])  b == SumDen(Neg(Of(st, n)), st.vals[i]) IN a = NaN \/ b = NaN \/ a = -b
=============================================================================

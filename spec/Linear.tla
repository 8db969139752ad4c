------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* What expressions in parameters P, data X and numbers denote.              *)
(*  - an expression is a tree, and Den is its value, by ordinary arithmetic,  *)
(*    under a valuation [P, X] of its names;                                 *)
(*  - functions held in variables are objects (so that two variables may hold *)
(*    the same one), each a sequence of terms [p, x, s]: parameter, data       *)
(*    expression, scale.                                                     *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC

Lim == 500 * One
OutOf(v) == v = NaN \/ Abs(v) > Lim
Try(v) == IF OutOf(v) THEN NaN ELSE v
Times(a, b) == IF a = NaN \/ b = NaN THEN NaN ELSE IF (Abs(a) \div 1000) > 0 /\ (Abs(b) \div 1000) > Lim \div (Abs(a) \div 1000) THEN NaN ELSE Try(Mul(a, b))
RECURSIVE IntPow(_, _)
IntPow(v, n) == IF n = 0 THEN One ELSE Times(IntPow(v, n - 1), v)
Over(a, b) == IF a = NaN \/ b = NaN \/ Abs(b) < 200000 THEN NaN ELSE IF Abs(a) \div 100 > Abs(b) THEN NaN ELSE Try(Div(a, b))

RECURSIVE Den(_, _)
Den(t, v) ==
  CASE t.k = "p" -> IF t.n = "_" THEN One ELSE v.P[t.n]
    [] t.k = "x" -> v.X[t.n]
    [] t.k = "n" -> t.v
    [] t.k = "neg" -> LET a == Den(t.a, v) IN IF a = NaN THEN NaN ELSE -a
    [] t.k = "pos" -> Den(t.a, v)
    [] t.k = "pow" -> IntPow(Den(t.a, v), t.e)
    [] OTHER ->
       LET a == Den(t.a, v)  b == Den(t.b, v)
       IN CASE t.k = "+" -> IF a = NaN \/ b = NaN THEN NaN ELSE Try(a + b)
            [] t.k = "-" -> IF a = NaN \/ b = NaN THEN NaN ELSE Try(a - b)
            [] t.k = "*" -> Times(a, b)
            [] t.k = "/" -> Over(a, b)

\* kinds of operands that an operator is there for.  n number, P parameter, X data, LC and LF
\* components and functions with data, LC1 and LF1 the same without data, PM other parameter math
Pure == {"P", "LC1", "LF1", "PM"}
Lins == {"P", "LC", "LC1", "LF", "LF1"}
Must(op, a, b) ==
  CASE op = "+" -> \/ a \in Lins /\ b \in Lins
                   \/ a \in Pure /\ b \in Pure
                   \/ (a = "n" /\ b \in Pure) \/ (a \in Pure /\ b = "n")
                   \/ (a \in {"X", "n"} /\ b \in {"X", "n"})
                   \/ (a = "X" /\ b \in {"P", "LC", "LC1"}) \/ (a \in {"LC", "LC1"} /\ b = "X")
    [] op = "-" -> \/ a \in Lins /\ b \in Lins
                   \/ a \in Pure /\ b \in Pure
                   \/ (a = "n" /\ b \in Pure) \/ (a \in Pure /\ b = "n")
                   \/ (a \in {"X", "n"} /\ b \in {"X", "n"})
                   \/ (a = "X" /\ b = "P") \/ (a \in {"LC", "LC1"} /\ b = "X")
    [] op = "*" -> \/ (a \in {"X", "n"} /\ b \in Lins \cup {"X", "n"}) \/ (a \in Lins /\ b \in {"X", "n"})
                   \/ (a = "n" /\ b = "PM") \/ (a = "PM" /\ b = "n")
                   \/ (a \in {"P", "LC1", "PM"} /\ b \in {"P", "LC1", "PM"})
                   \/ (a = "P" /\ b = "LF1") \/ (a = "LF1" /\ b = "P")
    [] op = "/" -> \/ (a \in {"X", "n"} /\ b \in {"X", "n"})
                   \/ (a \in {"P", "LC", "LC1", "LF1", "PM"} /\ b = "n")
                   \/ (a \in {"LC", "LC1"} /\ b = "X")
                   \/ (a \in {"P", "LC1", "LF1", "PM"} /\ b = "P")
                   \/ (a \in Pure \cup {"n"} /\ b \in {"P", "LC1", "PM"})
    [] op \in {"neg", "pos"} -> a \in {"n", "X", "LC", "LC1", "LF", "LF1"}
    [] op = "pow" -> a \in {"n", "X"}
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* objects.  state: v the variables (name -> object), o the objects (sequence of term sequences)
OneX == [k |-> "n", v |-> One]
TimesX(a, b) == IF a = OneX THEN b ELSE IF b = OneX THEN a ELSE [k |-> "*", a |-> a, b |-> b]
TermDen(t, v) == Times(t.s, Times(IF t.p = "_" THEN One ELSE v.P[t.p], Den(t.x, v)))
RECURSIVE SumDen(_, _)
SumDen(ts, v) == IF ts = <<>> THEN 0 ELSE LET a == TermDen(Head(ts), v)  b == SumDen(Tail(ts), v) IN IF a = NaN \/ b = NaN THEN NaN ELSE Try(a + b)

RECURSIVE AddUp(_)
AddUp(vs) == IF vs = <<>> THEN 0 ELSE LET a == Head(vs)  b == AddUp(Tail(vs)) IN IF a = NaN \/ b = NaN THEN NaN ELSE Try(a + b)

NilL == [vals |-> <<>>, v |-> [n \in {} |-> 0], o |-> <<>>]
Of(t, n) == t.o[t.v[n]]
InsertT(sq, k, x) == SubSeq(sq, 1, k - 1) \o <<x>> \o SubSeq(sq, k, Len(sq))
Bind(t, n, ts) == [t EXCEPT !.o = Append(@, ts), !.v = (n :> (Len(t.o) + 1)) @@ t.v]
Mut(t, n, ts) == [t EXCEPT !.o[t.v[n]] = ts]
Each(ts, F(_)) == [i \in 1..Len(ts) |-> F(ts[i])]
Neg(ts) == Each(ts, LAMBDA x : [x EXCEPT !.s = -@])
Apply1(t, e) ==
  CASE e.op = "new" -> [NilL EXCEPT !.vals = e.vals]
    [] e.op = "expr" -> t
    [] e.op = "let" -> Bind(t, e.n, e.ts)
    [] e.op = "bind" -> [t EXCEPT !.v = (e.n :> t.v[e.m]) @@ t.v]
    [] e.op = "iadd" -> Mut(t, e.n, Of(t, e.n) \o e.ts)
    [] e.op = "iaddv" -> Mut(t, e.n, Of(t, e.n) \o Of(t, e.m))
    [] e.op = "insert" -> Mut(t, e.n, InsertT(Of(t, e.n), e.k, e.ts[1]))
    [] e.op = "put" -> Mut(t, e.n, [Of(t, e.n) EXCEPT ![e.k] = e.ts[1]])
    [] e.op = "cut" -> Mut(t, e.n, SubSeq(Of(t, e.n), 1, e.k - 1) \o SubSeq(Of(t, e.n), e.k + 1, Len(Of(t, e.n))))
    [] e.op = "rmp" -> Mut(t, e.n, SelectSeq(Of(t, e.n), LAMBDA x : x.p # e.p))
    [] e.op = "rmx" -> Mut(t, e.n, SelectSeq(Of(t, e.n), LAMBDA x : x.x # e.x))
    [] e.op = "copy" -> Bind(t, e.n, Of(t, e.m))
    [] e.op = "neg" -> Bind(t, e.n, Neg(Of(t, e.m)))
    [] e.op = "add" -> Bind(t, e.n, Of(t, e.m) \o Of(t, e.w))
    [] e.op = "sub" -> Bind(t, e.n, Of(t, e.m) \o Neg(Of(t, e.w)))
    [] e.op = "addt" -> Bind(t, e.n, IF e.left THEN e.ts \o Of(t, e.m) ELSE Of(t, e.m) \o e.ts)
    [] e.op = "subt" -> Bind(t, e.n, IF e.left THEN e.ts \o Neg(Of(t, e.m)) ELSE Of(t, e.m) \o Neg(e.ts))
    [] e.op = "scale" -> Bind(t, e.n, Each(Of(t, e.m), LAMBDA x : [x EXCEPT !.s = Mul(@, e.s)]))
    [] e.op = "timesx" -> Bind(t, e.n, Each(Of(t, e.m), LAMBDA x : [x EXCEPT !.x = IF e.left THEN TimesX(e.x, @) ELSE TimesX(@, e.x)]))
    [] e.op = "rename" -> Bind(t, e.n, Each(Of(t, e.m), LAMBDA x : [x EXCEPT !.p = IF @ \in DOMAIN e.map THEN e.map[@] ELSE @]))
    [] OTHER -> t

\* objects that no variable holds are forgotten
Keep(t) == LET ns == DOMAIN t.v
               used == {t.v[n] : n \in ns}
               sq == SelectSeq([i \in 1..Len(t.o) |-> i], LAMBDA i : i \in used)
               pos(i) == CHOOSE k \in 1..Len(sq) : sq[k] = i
           IN [t EXCEPT !.o = [k \in 1..Len(sq) |-> t.o[sq[k]]], !.v = [n \in ns |-> pos(t.v[n])]]
Apply(t, e) == Keep(TLCEval(Apply1(t, e)))

-----------------------------------------------------------------------------
Tol == 500
VClose(o, r) == r = NaN \/ (IF IsNum(o) THEN Abs(o - r) <= Tol + Abs(r) \div 4000 ELSE FALSE)
VsClose(os, rs) == Len(os) = Len(rs) /\ \A i \in 1..Len(rs) : VClose(os[i], rs[i])

JudgeExpr(t, e) ==
  LET rs == TLCEval([i \in 1..Len(t.vals) |-> Den(e.t, t.vals[i])])
      o == e.obs
      zero == o.rej[4] = "ZeroDivisionError" /\ o.rej[3] = "n"
  IN IF o.rej # <<>>
     THEN << <<"an operator refuses operands that it is there for", zero \/ ~Must(o.rej[1], o.rej[2], o.rej[3])>>,
             <<"an expression fails otherwise than by refusing its operands", o.rej[4] \in {"TypeError", "NotImplementedError"} \/ zero>> >>
     ELSE << <<"the value of an expression", VsClose(o.vals, rs)>>,
             <<"the value of the text of an expression", VsClose(o.rvals, rs)>>,
             <<"an expression equals itself, built again", o.twin>>,
             <<"copies of an expression have its value", VsClose(o.copied, rs)>> >>

Names(t) == DOMAIN t.v
JudgeVar(t, n, o) ==
  LET ts == Of(t, n)
      xd == TLCEval([j \in 1..Len(ts) |-> TLCEval([i \in 1..Len(t.vals) |-> Den(ts[j].x, t.vals[i])])])
      td(j, i) == Times(ts[j].s, Times(IF ts[j].p = "_" THEN One ELSE t.vals[i].P[ts[j].p], xd[j][i]))
      rs == TLCEval([i \in 1..Len(t.vals) |-> AddUp([j \in 1..Len(ts) |-> td(j, i)])])
      inp(p) == \E i \in 1..Len(ts) : ts[i].p = p
      inx(x) == \E i \in 1..Len(ts) : ts[i].x = [k |-> "x", n |-> x]
      firstp(p) == (CHOOSE i \in 1..Len(ts) : ts[i].p = p /\ \A j \in 1..i - 1 : ts[j].p # p) - 1
      firstx(x) == (CHOOSE i \in 1..Len(ts) : ts[i].x = [k |-> "x", n |-> x] /\ \A j \in 1..i - 1 : ts[j].x # [k |-> "x", n |-> x]) - 1
  IN << <<"the number of terms", o.len = Len(ts)>>,
        <<"the parameters of the terms", o.ps = [i \in 1..Len(ts) |-> ts[i].p]>>,
        <<"the scales of the terms", Len(o.ss) = Len(ts) /\ \A i \in 1..Len(ts) : Close(o.ss[i], ts[i].s, 5)>>,
        <<"the data of the terms", Len(o.xs) = Len(ts) /\ \A i \in 1..Len(ts) : VsClose(o.xs[i], xd[i])>>,
        <<"the value of a function", VsClose(o.vals, rs)>>,
        <<"the value of the text of a function", ts = <<>> \/ VsClose(o.rvals, rs)>>,
        <<"looking up parameters", \A p \in DOMAIN o.inp : o.inp[p] = inp(p) /\ (inp(p) => o.atp[p] = firstp(p))>>,
        <<"looking up data", \A x \in DOMAIN o.inx : o.inx[x] = inx(x) /\ (inx(x) => o.atx[x] = firstx(x))>> >>
RECURSIVE JudgeVars(_, _, _)
JudgeVars(t, ns, o) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE n \in ns : TRUE IN JudgeVar(t, n, o.vars[n]) \o JudgeVars(t, ns \ {n}, o)

Judge(t, e) ==
  IF e.err # "" THEN << <<"the operation fails: " \o e.err, FALSE>> >>
  ELSE IF e.op = "new" THEN <<>>
  ELSE IF e.op = "expr" THEN JudgeExpr(t, e)
  ELSE JudgeVars(t, Names(t), e.obs)
       \o << <<"which functions are equal", \A n \in Names(t), m \in Names(t) : e.obs.eq[n][m] = (Of(t, n) = Of(t, m))>> >>
=============================================================================

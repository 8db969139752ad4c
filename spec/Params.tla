------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters of a model over its life.  State t:                        *)
(*   F    the frame: name -> [v, i, n, lo, hi, h, t] (value, starting value,   *)
(*        null value, bounds, held fast, note)                                *)
(*   ca, co, q   the names used by terms, ls code -> name of nests,            *)
(*   qs   the name of the scale of size terms                                 *)
(*   C    constraints on the parameters.                                      *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Drop(f, n) == [m \in (DOMAIN f) \ {n} |-> f[m]]

PlainRec == [v |-> 0, i |-> 0, n |-> 0, lo |-> NInf, hi |-> PInf, h |-> 0, t |-> ""]
ScaleRec == [v |-> One, i |-> One, n |-> One, lo |-> 1000, hi |-> One, h |-> 0, t |-> ""]

Scales(t) == {t.ls[c] : c \in DOMAIN t.ls} \cup (IF t.q # <<>> /\ t.qs # "" THEN {t.qs} ELSE {}) \cup (IF t.lam # "" THEN {t.lam} ELSE {})
Used(t) == Rng(t.ca) \cup Rng(t.co) \cup Rng(t.q) \cup Scales(t)
\* names in use that have no record get the one of their kind
Scan(t) == LET new == Used(t) \ DOMAIN t.F
           IN [t EXCEPT !.F = [m \in DOMAIN @ \cup new |-> IF m \in DOMAIN @ THEN @[m] ELSE IF m \in Scales(t) THEN ScaleRec ELSE PlainRec]]

EmptyT == [F |-> <<>>, ca |-> <<>>, co |-> <<>>, q |-> <<>>, ls |-> <<>>, qs |-> "", lam |-> "", C |-> <<>>]

\* set the fields of a record that f mentions
SetF(r, f) == [k \in DOMAIN r |-> IF k \in DOMAIN f THEN f[k] ELSE r[k]]
SetN(t, n, f) == [t EXCEPT !.F[n] = SetF(@, f)]
Lock(t, n, val, note) == SetN(t, n, [v |-> val, i |-> val, n |-> val, lo |-> val, hi |-> val, h |-> 1, t |-> IF note = "" THEN t.F[n].t ELSE note])
RECURSIVE LockAll(_, _, _)
LockAll(t, ls, note) == IF ls = <<>> THEN t
  ELSE LET x == Head(ls) IN LockAll(Lock(t, x.n, IF x.as = "here" THEN t.F[x.n].v ELSE IF x.as = "null" THEN t.F[x.n].n ELSE x.v, note), Tail(ls), note)
RECURSIVE SetAll(_, _)
SetAll(t, xs) == IF xs = <<>> THEN t ELSE SetAll(SetN(t, Head(xs).n, Head(xs).f), Tail(xs))

\* values by name, for the names that are there, sparing those held fast
Put(t, m, resp) == [t EXCEPT !.F = [n \in DOMAIN @ |-> IF n \in DOMAIN m /\ (~resp \/ @[n].h = 0) THEN [@[n] EXCEPT !.v = m[n]] ELSE @[n]]]
All(t, g(_)) == [n \in DOMAIN t.F |-> g(n)]
\* a vector is refused when it has the wrong length, or is not a number where it counts
Refused(t, e) ==
  \/ e.as = "short" \/ e.as = "long" \/ e.as = "best"
  \/ e.as \in {"vec", "list"} /\ \E n \in DOMAIN e.m : e.m[n] = NaN /\ (~e.resp \/ t.F[n].h = 0)
SetValues(t, e) ==
  IF Refused(t, e) THEN t
  ELSE LET a == CASE e.as \in {"vec", "list"} -> Put(t, e.m, e.resp)
                  [] e.as = "scalar" -> Put(t, All(t, LAMBDA n : e.v), e.resp)
                  [] e.as = "null" -> Put(t, All(t, LAMBDA n : t.F[n].n), e.resp)
                  [] e.as \in {"init", "initial"} -> Put(t, All(t, LAMBDA n : t.F[n].i), e.resp)
                  [] OTHER -> t
       IN IF e.as \in {"dict", "kw", "both"} \/ e.kw # <<>> THEN Put(a, e.kw, e.resp) ELSE a
Cap(r, c) == LET lo == Max2(r.lo, -c)  hi == Min2(r.hi, c) IN IF lo <= hi THEN [r EXCEPT !.lo = lo, !.hi = hi] ELSE r

DropFirst(s, n) == IF n \notin Rng(s) THEN s
                   ELSE LET k == CHOOSE j \in 1..Len(s) : s[j] = n /\ \A x \in 1..(j - 1) : s[x] # n
                        IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
EditT(t, e) ==
  CASE e.ed = "ca_add" -> [t EXCEPT !.ca = Append(@, e.n)]
    [] e.ed = "ca_del" -> [t EXCEPT !.ca = DropFirst(@, e.n)]
    [] e.ed = "co_add" -> [t EXCEPT !.co = Append(@, e.n)]
    [] e.ed = "co_del" -> [t EXCEPT !.co = DropFirst(@, e.n)]
    [] e.ed = "nest"   -> [t EXCEPT !.ls = (e.code :> e.n) @@ @]
    [] e.ed = "unnest" -> [t EXCEPT !.ls = Drop(@, e.code)]
    [] e.ed = "q_add"  -> [t EXCEPT !.q = Append(@, e.n)]
    [] e.ed = "q_clear" -> [t EXCEPT !.q = <<>>]
    [] e.ed = "qs"     -> [t EXCEPT !.qs = e.n]
    [] e.ed = "lam"    -> [t EXCEPT !.lam = e.n]
    [] OTHER -> t

\* constraints: kind "ord" (p <= q), "fix" (lo <= p <= hi), "ratio" (lo <= p / q <= hi); limits are
\* sequences of at most one number
Dup(C, c) == \E i \in 1..Len(C) : C[i] = c
RECURSIVE AddEach(_, _)
AddEach(C, cs) == IF cs = <<>> THEN C ELSE AddEach(Append(C, Head(cs)), Tail(cs))
ConsT(C, e) ==
  CASE e.how = "append" -> IF Dup(C, e.c) THEN C ELSE Append(C, e.c)
    [] e.how = "insert" -> IF Dup(C, e.c) THEN C ELSE SubSeq(C, 1, e.k - 1) \o <<e.c>> \o SubSeq(C, e.k, Len(C))
    [] e.how = "put"    -> IF Dup(C, e.c) THEN C ELSE [C EXCEPT ![e.k] = e.c]
    [] e.how = "del"    -> SubSeq(C, 1, e.k - 1) \o SubSeq(C, e.k + 1, Len(C))
    [] e.how = "set"    -> e.cs
    [] e.how = "clear"  -> <<>>
    [] OTHER -> C

Apply(t0, e) ==
  LET t == IF e.op = "edit" THEN t0 ELSE Scan(t0)
  IN CASE e.op = "new"   -> Scan([EmptyT EXCEPT !.ca = e.ca, !.co = e.co, !.C = e.cs])
       [] e.op = "edit"  -> Scan(EditT(t, e))
       [] e.op = "setv"  -> SetN(t, e.n, e.f)
       [] e.op = "lock"  -> LockAll(t, e.ls, e.note)
       [] e.op = "vals"  -> SetValues(t, e)
       [] e.op = "shift" -> Put(t, All(t, LAMBDA n : t.F[n].v + (IF e.as = "scalar" THEN e.v ELSE e.m[n])), TRUE)
       [] e.op = "cap"   -> [t EXCEPT !.F = [n \in DOMAIN @ |-> Cap(@[n], e.v)]]
       [] e.op = "batch" -> SetAll(t, e.xs)
       [] e.op = "unused" -> [t EXCEPT !.F = [n \in Used(t) |-> @[n]]]
       [] e.op = "frame" -> Scan(SetAll([t EXCEPT !.F = [n \in (DOMAIN @) \ Rng(e.drop) |-> @[n]]], e.xs))
       [] e.op = "cons"  -> [t EXCEPT !.C = ConsT(@, e)]
       [] OTHER -> t

-----------------------------------------------------------------------------
\* the two columns of a held or free parameter that an observation shows
RowOk(r, o) == /\ o.v = r.v /\ o.i = r.i /\ o.n = r.n /\ o.lo = r.lo /\ o.hi = r.hi /\ (o.h = 1) = (r.h = 1) /\ o.t = r.t
SameNames(F, o) == DOMAIN F = DOMAIN o
Look(t, o) ==
  LET has(f) == f \in DOMAIN o
      F == t.F
  IN (IF has("pf") THEN <<<<"names", SameNames(F, o.pf)>>,
                          <<"records", SameNames(F, o.pf) => \A n \in DOMAIN F : RowOk(F[n], o.pf[n])>>>> ELSE <<>>)
  \o (IF has("pvals") THEN <<<<"vector of values", SameNames(F, o.pvals) /\ \A n \in DOMAIN F : o.pvals[n] = F[n].v>>>> ELSE <<>>)
  \o (IF has("gv") THEN <<<<"values by name", SameNames(F, o.gv) /\ \A n \in DOMAIN F : o.gv[n] = F[n].v>>>> ELSE <<>>)
  \o (IF has("bounds") THEN <<<<"bounds", SameNames(F, o.bounds) /\ \A n \in DOMAIN F : o.bounds[n] = <<F[n].lo, F[n].hi>>>>>> ELSE <<>>)
  \o (IF has("hold") THEN <<<<"held fast", SameNames(F, o.hold) /\ \A n \in DOMAIN F : (o.hold[n] = 1) = (F[n].h = 1)>>>> ELSE <<>>)
  \o (IF has("row") THEN <<<<"one record", SameNames(F, o.row) /\ \A n \in DOMAIN F : RowOk(F[n], o.row[n])>>>> ELSE <<>>)
  \o (IF has("sorted") THEN <<<<"sorted by name", o.sorted>>>> ELSE <<>>)
  \o (IF has("ncons") THEN <<<<"number of constraints", o.ncons = Len(t.C)>>>> ELSE <<>>)
  \* categories of the ordered frame: each parameter once, in the first category that claims it
  \o (IF has("cats") THEN <<<<"ordered frame", /\ Len(o.cats) = Cardinality(DOMAIN F)
                                               /\ {o.cats[i].n : i \in 1..Len(o.cats)} = DOMAIN F
                                               /\ \A i \in 1..Len(o.cats) : o.cats[i].v = F[o.cats[i].n].v>>>> ELSE <<>>)

\* expressions of parameters: ["p", n], ["k", c], [op, x, y]
Atom(F, x) == IF x[1] = "p" THEN F[x[2]].v ELSE x[2]
Value(F, x) ==
  CASE x[1] = "+" -> Atom(F, x[2]) + Atom(F, x[3])
    [] x[1] = "-" -> Atom(F, x[2]) - Atom(F, x[3])
    [] x[1] = "*" -> Mul(Atom(F, x[2]), Atom(F, x[3]))
    [] x[1] = "/" -> IF Atom(F, x[3]) = 0 THEN NaN ELSE Div(Atom(F, x[2]), Atom(F, x[3]))
    [] OTHER -> Atom(F, x)
CatOf(n, cats) == LET S == {i \in 1..Len(cats) : n \in Rng(cats[i])}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

-----------------------------------------------------------------------------
\* What a constraint means for the values x: one side per limit, s >= 0 when it holds, g its gradient
Sd(s, g) == [s |-> s, g |-> g]
Sides(c, x) ==
  CASE c.k = "ord" -> <<Sd(x[c.q] - x[c.p], (c.q :> One) @@ (c.p :> -One))>>
    [] c.k = "fix" -> [i \in 1..Len(c.lo) |-> Sd(x[c.p] - c.lo[i], (c.p :> One))]
                      \o [i \in 1..Len(c.hi) |-> Sd(c.hi[i] - x[c.p], (c.p :> -One))]
    [] OTHER -> LET sg == Sgn(x[c.q])
                IN [i \in 1..Len(c.lo) |-> Sd(sg * (x[c.p] - Mul(c.lo[i], x[c.q])), (c.p :> sg * One) @@ (c.q :> -sg * c.lo[i]))]
                   \o [i \in 1..Len(c.hi) |-> Sd(sg * (Mul(c.hi[i], x[c.q]) - x[c.p]), (c.p :> -sg * One) @@ (c.q :> sg * c.hi[i]))]
Sharp(c, sd) == c.sharp \/ \A i \in 1..Len(sd) : Abs(sd[i].s) > 2000
Sat(sd) == \A i \in 1..Len(sd) : sd[i].s >= 0
AtLimit(sd) == Sat(sd) /\ \E i \in 1..Len(sd) : sd[i].s = 0
G(sd, n) == IF n \in DOMAIN sd.g THEN sd.g[n] ELSE 0
\* fun and jac belong to this side, up to a positive factor that they share
Fits(sd, fun, jac) ==
  /\ Sgn(fun) = Sgn(sd.s)
  /\ \A n \in DOMAIN jac : Sgn(jac[n]) = Sgn(G(sd, n)) /\ Close(Mul(jac[n], sd.s), Mul(fun, G(sd, n)), 200)
  /\ \A n, m \in DOMAIN sd.g : Close(Mul(jac[n], G(sd, m)), Mul(jac[m], G(sd, n)), 200)
ConsOk(c, x, o) ==
  LET sd == Sides(c, x)
  IN IF ~Sharp(c, sd) THEN <<>>
     ELSE << <<"satisfied: " \o c.k, (o.fun >= 0) = Sat(sd)>>,
             <<"binding: " \o c.k, o.bind = AtLimit(sd)>>,
             <<"listed as binding: " \o c.k, o.listed = AtLimit(sd)>>,
             <<"gradient: " \o c.k, \E i \in 1..Len(sd) : Fits(sd[i], o.fun, o.jac)>>,
             <<"linear form: " \o c.k, o.lin = Sat(sd) \/ \E i \in 1..Len(sd) : Abs(sd[i].s) <= 2>>,
             <<"for the optimizer: " \o c.k, o.dfun = o.fun /\ o.djac = o.jac>>,
             <<"parameters: " \o c.k, Rng(o.par) = {c.p} \cup (IF c.k = "fix" THEN {} ELSE {c.q})>> >>
RECURSIVE ConsAll(_, _, _, _)
ConsAll(C, x, o, i) == IF i > Len(C) THEN <<>> ELSE ConsOk(C[i], x, o[i]) \o ConsAll(C, x, o, i + 1)

\* t is the state before, t2 after
Judge(t, t2, e) ==
  IF e.op = "vals" /\ Refused(Scan(t), e)
  THEN <<<<"bad values are refused", e.err # "">>>> \o Look(t2, e.obs)
  ELSE IF e.err # "" THEN <<<<"no error: " \o e.err, FALSE>>>>
  ELSE Look(t2, e.obs)
       \o (IF e.op = "expr" THEN <<<<"value of an expression", Len(e.obs.xs) = Len(e.xs)>>,
              <<"value of an expression", \A i \in 1..Len(e.xs) : LET w == Value(t2.F, e.xs[i])
                   IN w = NaN \/ \A y \in 1..Len(e.obs.xs[i]) : CloseRel(e.obs.xs[i][y], w, 3)>>>>
           ELSE <<>>)
       \o (IF e.op = "cats" THEN <<<<"categories of the ordered frame", \A i \in 1..Len(e.obs.cats) :
                   e.obs.cats[i].c = CatOf(e.obs.cats[i].n, e.cats)>>>> ELSE <<>>)
       \o (IF "warned" \in DOMAIN e.obs THEN <<<<"unknown names are reported", e.obs.warned = ~(DOMAIN e.kw \subseteq DOMAIN t2.F)>>>> ELSE <<>>)
       \o (IF e.op = "eval" THEN IF Len(e.obs.cons) = Len(t2.C) THEN ConsAll(t2.C, e.x, e.obs.cons, 1)
                                 ELSE <<<<"number of constraints", FALSE>>>>
           ELSE <<>>)
=============================================================================

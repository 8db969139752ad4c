------------------------------- MODULE Choice -------------------------------
(***************************************************************************)
(* The choice model: what a (multinomial, nested, network) logit model of   *)
(* larch computes from a specification, data and parameter values.           *)
(*                                                                         *)
(* Model specification S:                                                   *)
(*   alts  : sequence of alternative codes                                   *)
(*   ca    : sequence of [p, x, s]   terms on alternative data (idca)         *)
(*   co    : for each alternative a sequence of terms [p, x, s] on case data  *)
(*   q     : sequence of [p, x]      quantity terms;  qs: scale parameter, ""  *)
(*   nests : sequence of [code, p, ch], children before parents, root last;   *)
(*           ch are node positions (alternatives 1..A, then nests A+1..);     *)
(*           p is the name of the logsum parameter, "" when there is none     *)
(* A term [p, x, s] denotes s * value(p) * data(x), where x = 0 is the        *)
(* constant one, p is a parameter name.                                      *)
(* Data D:                                                                  *)
(*   n; co[c][k]; ca[c][a][k]; av[c][a] (0/1); ch[c][a]; wt[c]; norm          *)
(* Parameter values V: a function from names to values.                       *)
(* All reals are fixed point numbers (FixedPoint.tla).                        *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC

NAlt(S)   == Len(S.alts)
NNest(S)  == Len(S.nests)
NNode(S)  == NAlt(S) + NNest(S)
Root(S)   == NNode(S)
Nest(S, i) == S.nests[i - NAlt(S)]
IsNestNode(S, i) == i > NAlt(S)

Parents(S, i) == {j \in NAlt(S) + 1 .. NNode(S) : \E k \in 1..Len(Nest(S, j).ch) : Nest(S, j).ch[k] = i}
NParents(S, i) == Cardinality(Parents(S, i))

MuOf(S, V, i) == IF Nest(S, i).p = "" THEN One ELSE V[Nest(S, i).p]
\* an alternative in several nests is allotted to them in equal shares
LogAlpha(S, i) == IF NParents(S, i) <= 1 THEN 0 ELSE -Ln(NParents(S, i) * One)

CoX(D, c, x)    == IF x = 0 THEN One ELSE D.co[c][x]
CaX(D, c, a, x) == IF x = 0 THEN One ELSE D.ca[c][a][x]

-----------------------------------------------------------------------------
\* Elemental utilities

QSum(S, D, V, c, a) ==
  SumSeq([k \in 1..Len(S.q) |-> Mul(Exp(V[S.q[k].p]), CaX(D, c, a, S.q[k].x))])
QScale(S, V) == IF S.qs = "" THEN One ELSE V[S.qs]
HasQ(S) == Len(S.q) > 0

AltOk(S, D, V, c, a) == D.av[c][a] # 0 /\ (HasQ(S) => QSum(S, D, V, c, a) > 0)

AltU(S, D, V, c, a) ==
    SumSeq([k \in 1..Len(S.ca) |-> Mul(S.ca[k].s, Mul(V[S.ca[k].p], CaX(D, c, a, S.ca[k].x)))])
  + SumSeq([k \in 1..Len(S.co[a]) |-> Mul(S.co[a][k].s, Mul(V[S.co[a][k].p], CoX(D, c, S.co[a][k].x)))])
  + (IF HasQ(S) THEN Mul(QScale(S, V), Ln(QSum(S, D, V, c, a))) ELSE 0)

\* derivative of an alternative's utility with respect to parameter p
AltD(S, D, V, c, a, p) ==
    SumSeq([k \in 1..Len(S.ca) |-> IF S.ca[k].p = p THEN Mul(S.ca[k].s, CaX(D, c, a, S.ca[k].x)) ELSE 0])
  + SumSeq([k \in 1..Len(S.co[a]) |-> IF S.co[a][k].p = p THEN Mul(S.co[a][k].s, CoX(D, c, S.co[a][k].x)) ELSE 0])
  + (IF HasQ(S)
     THEN LET qq == QSum(S, D, V, c, a)
          IN (IF S.qs = p THEN Ln(qq) ELSE 0)
             + SumSeq([k \in 1..Len(S.q) |-> IF S.q[k].p = p
                          THEN Mul(QScale(S, V), Div(Mul(Exp(V[p]), CaX(D, c, a, S.q[k].x)), qq)) ELSE 0])
     ELSE 0)

-----------------------------------------------------------------------------
\* Nests, from the alternatives up to the root.  A node record is
\*   [ok, u, du]: is any alternative below it available, its utility (logsum), and
\*   the derivatives of its utility by the parameters PS (a sequence of names).

MaxOf(s) == LET RECURSIVE M(_, _)
                M(i, m) == IF i > Len(s) THEN m ELSE M(i + 1, Max2(m, s[i]))
            IN M(2, s[1])

\* the available children of node i
OkCh(S, N, i) == SelectSeq(Nest(S, i).ch, LAMBDA j : N[j].ok)

NestNode(S, V, PS, N, i) ==
  LET ch == OkCh(S, N, i)
  IN IF ch = <<>> THEN [ok |-> FALSE, u |-> NInf, du |-> [k \in 1..Len(PS) |-> 0]]
     ELSE LET mu == MuOf(S, V, i)
              v  == TLCEval([k \in 1..Len(ch) |-> N[ch[k]].u + LogAlpha(S, ch[k])])
              z  == TLCEval([k \in 1..Len(ch) |-> Div(v[k], mu)])
              m  == MaxOf(z)
              e  == TLCEval([k \in 1..Len(ch) |-> Exp(z[k] - m)])
              se == SumSeq(e)
              u  == Mul(mu, m + Ln(se))
              w  == TLCEval([k \in 1..Len(ch) |-> Div(e[k], se)])
          IN [ok |-> TRUE, u |-> u,
              du |-> TLCEval([k \in 1..Len(PS) |->
                       SumSeq([j \in 1..Len(ch) |-> Mul(w[j], N[ch[j]].du[k])])
                     + (IF Nest(S, i).p = PS[k]
                        THEN Div(u - SumSeq([j \in 1..Len(ch) |-> Mul(w[j], v[j])]), mu)
                        ELSE 0)])]

RECURSIVE NodesUp(_, _, _, _, _)
NodesUp(S, V, PS, N, i) ==
  IF i > NNode(S) THEN N
  ELSE LET x == TLCEval(NestNode(S, V, PS, N, i)) IN NodesUp(S, V, PS, Append(N, x), i + 1)

Nodes(S, D, V, PS, c) ==
  LET el == TLCEval([a \in 1..NAlt(S) |->
              IF AltOk(S, D, V, c, a)
              THEN [ok |-> TRUE, u |-> AltU(S, D, V, c, a),
                    du |-> TLCEval([k \in 1..Len(PS) |-> AltD(S, D, V, c, a, PS[k])])]
              ELSE [ok |-> FALSE, u |-> NInf, du |-> [k \in 1..Len(PS) |-> 0]]])
  IN NodesUp(S, V, PS, el, NAlt(S) + 1)

-----------------------------------------------------------------------------
\* Probabilities, from the root down.  The record of a node is [lp, dlp], the log of
\* its total probability and the derivatives of that.

\* log of the conditional probability of child j within parent i, and its derivative
LCond(S, V, N, i, j) == Div(N[j].u + LogAlpha(S, j) - N[i].u, MuOf(S, V, i))
DLCond(S, V, PS, N, i, j, k) ==
    Div(N[j].du[k] - N[i].du[k], MuOf(S, V, i))
  - (IF Nest(S, i).p = PS[k] THEN Div(LCond(S, V, N, i, j), MuOf(S, V, i)) ELSE 0)

DownNode(S, V, PS, N, L, j) ==
  IF ~N[j].ok THEN [lp |-> NInf, dlp |-> [k \in 1..Len(PS) |-> 0]]
  ELSE LET ps == TLCEval(SelectSeq([k \in 1..NNest(S) |-> NAlt(S) + k], LAMBDA i : i \in Parents(S, j)))
           l  == TLCEval([k \in 1..Len(ps) |-> L[ps[k]].lp + LCond(S, V, N, ps[k], j)])
           m  == MaxOf(l)
           e  == TLCEval([k \in 1..Len(ps) |-> Exp(l[k] - m)])
           se == SumSeq(e)
       IN [lp  |-> m + Ln(se),
           dlp |-> TLCEval([k \in 1..Len(PS) |->
                     SumSeq([r \in 1..Len(ps) |->
                       Mul(Div(e[r], se), L[ps[r]].dlp[k] + DLCond(S, V, PS, N, ps[r], j, k))])])]

\* L is built backwards: a function on i..NNode
RECURSIVE NodesDown(_, _, _, _, _, _)
NodesDown(S, V, PS, N, L, j) ==
  IF j = 0 THEN L
  ELSE LET x == TLCEval(DownNode(S, V, PS, N, L, j))
       IN NodesDown(S, V, PS, N, TLCEval([L EXCEPT ![j] = x]), j - 1)

LogProbs(S, V, PS, N) ==
  LET z  == TLCEval([k \in 1..Len(PS) |-> 0])
      L0 == TLCEval([j \in 1..NNode(S) |-> [lp |-> IF j = Root(S) THEN 0 ELSE NInf, dlp |-> z]])
  IN IF ~N[Root(S)].ok THEN L0 ELSE NodesDown(S, V, PS, N, L0, NNode(S) - 1)

\* everything about one case
Case(S, D, V, PS, c) ==
  LET N == TLCEval(Nodes(S, D, V, PS, c))
      L == TLCEval(LogProbs(S, V, PS, N))
  IN [u  |-> TLCEval([i \in 1..NNode(S) |-> N[i].u]),
      ok |-> TLCEval([i \in 1..NNode(S) |-> N[i].ok]),
      p  |-> TLCEval([i \in 1..NNode(S) |-> IF N[i].ok THEN Exp(L[i].lp) ELSE 0]),
      lp |-> TLCEval([i \in 1..NNode(S) |-> IF N[i].ok THEN L[i].lp ELSE NInf]),
      du |-> TLCEval([i \in 1..NNode(S) |-> N[i].du]),
      dlp |-> TLCEval([i \in 1..NNode(S) |-> L[i].dlp])]

\* log likelihood of a case, before the weight: sum of choices * log probability
CaseLL(S, D, R, c) ==
  SumSeq([a \in 1..NAlt(S) |-> IF D.ch[c][a] = 0 THEN 0
                               ELSE IF R.ok[a] THEN Mul(D.ch[c][a], R.lp[a]) ELSE 0])
\* is something chosen that has probability zero?
CaseBad(S, D, R, c) == \E a \in 1..NAlt(S) : D.ch[c][a] # 0 /\ ~R.ok[a]

CaseScore(S, D, R, c, k) ==
  SumSeq([a \in 1..NAlt(S) |-> IF D.ch[c][a] = 0 \/ ~R.ok[a] THEN 0 ELSE Mul(D.ch[c][a], R.dlp[a][k])])
CaseBHHH(S, D, R, c, k, l) ==
  SumSeq([a \in 1..NAlt(S) |-> IF D.ch[c][a] = 0 \/ ~R.ok[a] THEN 0
                               ELSE Mul(D.ch[c][a], Mul(R.dlp[a][k], R.dlp[a][l]))])

-----------------------------------------------------------------------------
\* The cases that a computation is asked for: slices and folds, cases numbered from 0
Slice(n, start, stop, step, leave, keep, sub) ==
  LET hi == IF stop < 0 THEN n ELSE stop
      In(c) == /\ c - 1 >= start /\ c - 1 < hi /\ (c - 1 - start) % step = 0
               /\ (leave >= 0 => (c - 1) % sub # leave)
               /\ (keep >= 0 => (c - 1) % sub = keep)
  IN SelectSeq([c \in 1..n |-> c], LAMBDA c : In(c))
All(n) == [c \in 1..n |-> c]

\* Rs: the results of Case for each case of the data
SumCases(cs, F(_)) == SumSeq([i \in 1..Len(cs) |-> F(cs[i])])
TotalLL(S, D, Rs, cs)  == Mul(D.norm, SumCases(cs, LAMBDA c : Mul(D.wt[c], CaseLL(S, D, Rs[c], c))))
Score(S, D, Rs, cs, k) == Mul(D.norm, SumCases(cs, LAMBDA c : Mul(D.wt[c], CaseScore(S, D, Rs[c], c, k))))
BHHH(S, D, Rs, cs, k, l) ==
  Mul(D.norm, SumCases(cs, LAMBDA c : Mul(D.wt[c], CaseBHHH(S, D, Rs[c], c, k, l))))
=============================================================================

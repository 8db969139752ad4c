-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Deterministic pseudo random generation of model specifications, data and  *)
(* parameter values from a seed, so that TLC can enumerate many behaviours    *)
(* over rich constants and the same seed always gives the same scenario.       *)
(***************************************************************************)
EXTENDS Choice, Rand

BNames == <<"b1", "b2", "b3", "b4", "b5", "b6">>
MNames == <<"m1", "m2", "m3">>
QNames == <<"g1", "g2">>

Scales == <<One, One, One, One, One \div 2, -One, 2 * One>>
\* x ranges over lo..kx; zero stands for the constant one
Term(s, lo, kx) == [p |-> Pick(s, 1, BNames), x |-> lo + Rnd(s, 2, kx + 1 - lo), s |-> Pick(s, 3, Scales)]

KCo == 2
KCa == 2        \* generic alternative data
KQ  == 2        \* size variables, after the generic ones

(* Profile record G:                                                        *)
(*   maxalt, maxcase, maxnest : sizes                                        *)
(*   q    : percent chance of a quantity function                            *)
(*   multi: percent chance of a node having a second parent                   *)
(*   sharemu: percent chance of a nest sharing another nest's parameter        *)
(*   frac : percent chance of unusual choices;  wt : percent chance of weights *)

DistinctCodes(s, n) == LET st == 1 + Rnd(s, 1, 10)  off == Rnd(s, 2, 11)
                       IN FillSeq(n, LAMBDA a : 1 + ((a * st + off) % 11))

\* nests: nest m's children are chosen among the nodes before it
GenNests(G, s, A) ==
  LET M == Rnd(s, 1, G.maxnest + 1)
      \* does nest m take node i?  each node has one home nest (or the root) and maybe a second
      Home(i) == LET lo == IF i <= A THEN 1 ELSE i - A + 1      \* first admissible nest
                 IN lo + Rnd(s, 10 + i, (M + 1) - lo + 1)         \* lo..M+1, M+1 is the root
      Second(i) == LET lo == IF i <= A THEN 1 ELSE i - A + 1
                   IN lo + Rnd(s, 40 + i, (M + 1) - lo + 1)
      Takes(m, i) == \/ Home(i) = m
                     \/ (IF i <= A THEN Coin(s, 70 + i, G.multi) ELSE Coin(s, 70 + i, G.multin)) /\ Second(i) = m
      Ch(m) == SelectSeq(FillSeq(A + m - 1, LAMBDA i : i), LAMBDA i : Takes(m, i))
      \* a nest without a child takes the first alternative too
      Ch1(m) == IF Ch(m) = <<>> THEN <<1 + Rnd(s, 90 + m, A)>> ELSE Ch(m)
      P(m) == IF m > M THEN "" ELSE IF m > 1 /\ Coin(s, 100 + m, G.sharemu) THEN MNames[1] ELSE MNames[m]
  IN FillSeq(M + 1, LAMBDA m : [code |-> IF m > M THEN 0 ELSE 30 - 3 * m, p |-> P(m), ch |-> Ch1(m)])

GenSpecFor(G, s, alts) ==
  LET A  == Len(alts)
      nq == IF Coin(s, 2, G.q) THEN 1 + Rnd(s, 3, 2) ELSE 0
  IN [alts |-> alts,
      ca   |-> FillSeq(Rnd(s, 5, 4), LAMBDA k : Term(Sub(s, 50 + k), 1, KCa)),
      co   |-> FillSeq(A, LAMBDA a : FillSeq(Rnd(s, 60 + a, 3), LAMBDA k : Term(Sub(s, 100 * a + k), 0, KCo))),
      q    |-> FillSeq(nq, LAMBDA k : [p |-> Pick(s, 80 + k, QNames), x |-> KCa + Rnd(s, 85 + k, KQ) + 1]),
      qs   |-> IF nq > 0 /\ Coin(s, 6, 50) THEN "qs" ELSE "",
      nests |-> GenNests(G, Sub(s, 7), A)]
GenSpec(G, s) == GenSpecFor(G, s, DistinctCodes(Sub(s, 4), 2 + Rnd(s, 1, G.maxalt - 1)))

Grid == <<-One, -750000, -500000, -250000, 0, 250000, 500000, 750000, One, 1250000>>
SizeGrid == <<500000, One, 2 * One, 4 * One, 0, One, 1500000, 3 * One, 250000, One>>

GenData(G, s, S) ==
  LET A == Len(S.alts)
      n == 1 + Rnd(s, 1, G.maxcase)
      nc(c) == 100 * c
      av == FillSeq(n, LAMBDA c : FillSeq(A, LAMBDA a :
              IF a = 1 + Rnd(s, nc(c) + 50, A) \/ Coin(s, nc(c) + a, G.av) THEN 1 ELSE 0))
      ca == FillSeq(n, LAMBDA c : FillSeq(A, LAMBDA a : FillSeq(KCa + KQ, LAMBDA k :
              IF k <= KCa THEN Pick(s, nc(c) + 1000 * a + k, Grid) ELSE LET z == Pick(s, nc(c) + 1000 * a + k, SizeGrid) IN IF z = 0 /\ G.zq = 0 THEN One ELSE z)))
      Sz(c, a) == S.q = <<>> \/ \E k \in 1..Len(S.q) : ca[c][a][S.q[k].x] > 0
      OkAlts(c) == SelectSeq(FillSeq(A, LAMBDA a : a), LAMBDA a : av[c][a] = 1 /\ Sz(c, a))
      Chosen(c) == LET o == OkAlts(c) IN IF o = <<>> THEN 0 ELSE Pick(s, nc(c) + 51, o)
      odd(c) == Coin(s, nc(c) + 52, G.frac)
  IN [n  |-> n,
      ids |-> LET st == 1 + Rnd(s, 2, 30) IN FillSeq(n, LAMBDA c : 1 + ((c * st + Rnd(s, 3, 31)) % 31)),
      co |-> FillSeq(n, LAMBDA c : FillSeq(KCo, LAMBDA k : Pick(s, nc(c) + 60 + k, Grid))),
      ca |-> ca,
      av |-> av,
      ch |-> FillSeq(n, LAMBDA c : FillSeq(A, LAMBDA a :
               IF odd(c)
               THEN IF \E j \in 1..Len(OkAlts(c)) : OkAlts(c)[j] = a
                    THEN Pick(s, nc(c) + 70 + a, <<0, One, 2 * One, 500000, 0, 250000>>) ELSE 0
               ELSE IF a = Chosen(c) THEN One ELSE 0)),
      wt |-> IF Coin(s, 4, G.wt)
             THEN FillSeq(n, LAMBDA c : Pick(s, nc(c) + 80, <<One, 2 * One, 500000, 1500000, 3 * One, One>>))
             ELSE FillSeq(n, LAMBDA c : One),
      haswt |-> Coin(s, 4, G.wt),
      norm |-> IF Coin(s, 4, G.wt) /\ Coin(s, 5, 40) THEN Pick(s, 6, <<500000, 2 * One, 1250000>>) ELSE One]

BGrid == <<-One, -800000, -550000, -300000, -100000, 0, 150000, 350000, 600000, 850000, 1100000, 1300000>>
MGrid == <<300000, 450000, 600000, 700000, 800000, 900000, One, One>>
QGrid == <<-700000, -300000, 0, 200000, 600000>>
GenVal(s, name) ==
  IF name \in {MNames[i] : i \in 1..Len(MNames)} \cup {"qs"} THEN Pick(s, 1, MGrid)
  ELSE IF name \in {QNames[i] : i \in 1..Len(QNames)} THEN Pick(s, 1, QGrid)
  ELSE Pick(s, 1, BGrid)

\* the parameters that a specification refers to
SpecNames(S) ==
     {S.ca[k].p : k \in 1..Len(S.ca)}
  \cup UNION {{S.co[a][k].p : k \in 1..Len(S.co[a])} : a \in 1..Len(S.co)}
  \cup {S.q[k].p : k \in 1..Len(S.q)}
  \cup (IF S.qs # "" /\ S.q # <<>> THEN {S.qs} ELSE {})
  \cup ({S.nests[m].p : m \in 1..Len(S.nests)} \ {""})

\* in a fixed order
AllNames == BNames \o QNames \o MNames \o <<"qs">>
NameIx(p) == CHOOSE i \in 1..Len(AllNames) : AllNames[i] = p
NamesSeq(S) == LET ns == SpecNames(S) IN SelectSeq(AllNames, LAMBDA p : p \in ns)
GenVals(s, names) == [p \in names |-> GenVal(Sub(s, NameIx(p)), p)]
=============================================================================

------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* Edits of a model specification (the record S of Choice): EditS(S, e) is    *)
(* the specification after edit e.                                           *)
(***************************************************************************)
EXTENDS Gen, SequencesExt

RemoveIf(seq, T(_)) == SelectSeq(seq, LAMBDA t : ~T(t))
PosOf(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
NestPos(S, code) == CHOOSE m \in 1..Len(S.nests) : S.nests[m].code = code

\* a nest is put before the root and takes the given nodes over from the root
AddNest(S, code, p, ch) ==
  LET M == Len(S.nests)
      rt == S.nests[M]
      keep == SelectSeq(rt.ch, LAMBDA i : \A k \in 1..Len(ch) : ch[k] # i)
  IN [S EXCEPT !.nests = SubSeq(S.nests, 1, M - 1)
        \o << [code |-> code, p |-> p, ch |-> ch],
              [code |-> rt.code, p |-> rt.p, ch |-> Append(keep, NAlt(S) + M)] >>]

\* a nest goes away, and what is in it moves up
DelNest(S, m) ==
  LET A == NAlt(S)
      pos == A + m
      Ren(i) == IF i > pos THEN i - 1 ELSE i
      New(n) == LET has == \E k \in 1..Len(n.ch) : n.ch[k] = pos
                    kept == SelectSeq(n.ch, LAMBDA i : i # pos)
                    more == SelectSeq(S.nests[m].ch, LAMBDA i : \A k \in 1..Len(kept) : kept[k] # i)
                    all == IF has THEN kept \o more ELSE kept
                IN [n EXCEPT !.ch = [k \in 1..Len(all) |-> Ren(all[k])]]
  IN [S EXCEPT !.nests = [k \in 1..Len(S.nests) - 1 |-> New(IF k < m THEN S.nests[k] ELSE S.nests[k + 1])]]

\* node i moves from nest m to nest k (positions in nests)
MoveNode(S, i, m, k) ==
  [S EXCEPT !.nests = [j \in 1..Len(S.nests) |->
     IF j = m THEN [S.nests[j] EXCEPT !.ch = SelectSeq(@, LAMBDA x : x # i)]
     ELSE IF j = k THEN [S.nests[j] EXCEPT !.ch = Append(@, i)]
     ELSE S.nests[j]]]

EditS(S, e) ==
  CASE e.ed = "ca_set"   -> [S EXCEPT !.ca = e.ts]
    [] e.ed = "ca_add"   -> [S EXCEPT !.ca = Append(@, e.t)]
    [] e.ed = "ca_ins"   -> [S EXCEPT !.ca = InsertAt(@, e.k, e.t)]
    [] e.ed = "ca_put"   -> [S EXCEPT !.ca = ReplaceAt(@, e.k, e.t)]
    [] e.ed = "ca_del"   -> [S EXCEPT !.ca = RemoveAt(@, e.k)]
    [] e.ed = "ca_rmp"   -> [S EXCEPT !.ca = RemoveIf(@, LAMBDA t : t.p = e.p)]
    [] e.ed = "ca_rmx"   -> [S EXCEPT !.ca = RemoveIf(@, LAMBDA t : t.x = e.x)]
    [] e.ed = "ca_clear" -> [S EXCEPT !.ca = <<>>]
    [] e.ed = "co_set"   -> [S EXCEPT !.co[e.a] = e.ts]
    [] e.ed = "co_add"   -> [S EXCEPT !.co[e.a] = Append(@, e.t)]
    [] e.ed = "co_ins"   -> [S EXCEPT !.co[e.a] = InsertAt(@, e.k, e.t)]
    [] e.ed = "co_put"   -> [S EXCEPT !.co[e.a] = ReplaceAt(@, e.k, e.t)]
    [] e.ed = "co_cut"   -> [S EXCEPT !.co[e.a] = RemoveAt(@, e.k)]
    [] e.ed = "co_del"   -> [S EXCEPT !.co[e.a] = <<>>]
    [] e.ed = "co_rmp"   -> [S EXCEPT !.co[e.a] = RemoveIf(@, LAMBDA t : t.p = e.p)]
    [] e.ed = "co_rmx"   -> [S EXCEPT !.co[e.a] = RemoveIf(@, LAMBDA t : t.x = e.x)]
    [] e.ed = "co_clear" -> [S EXCEPT !.co = [a \in 1..Len(S.alts) |-> <<>>]]
    [] e.ed = "co_all"   -> [S EXCEPT !.co = e.co]
    [] e.ed = "q_set"    -> [S EXCEPT !.q = e.q]
    [] e.ed = "q_add"    -> [S EXCEPT !.q = Append(@, e.t)]
    [] e.ed = "q_ins"    -> [S EXCEPT !.q = InsertAt(@, e.k, e.t)]
    [] e.ed = "q_put"    -> [S EXCEPT !.q = ReplaceAt(@, e.k, e.t)]
    [] e.ed = "q_del"    -> [S EXCEPT !.q = RemoveAt(@, e.k)]
    [] e.ed = "q_rmp"    -> [S EXCEPT !.q = RemoveIf(@, LAMBDA t : t.p = e.p)]
    [] e.ed = "q_clear"  -> [S EXCEPT !.q = <<>>]
    [] e.ed = "qs_set"   -> [S EXCEPT !.qs = e.p]
    [] e.ed = "qs_clear" -> [S EXCEPT !.qs = ""]
    [] e.ed = "nest_add" -> AddNest(S, e.code, e.p, e.ch)
    [] e.ed = "nest_del" -> DelNest(S, NestPos(S, e.code))
    [] e.ed = "nest_par" -> [S EXCEPT !.nests[NestPos(S, e.code)].p = e.p]
    [] e.ed = "nest_move" -> MoveNode(S, e.i, NestPos(S, e.from), NestPos(S, e.to))
    [] e.ed = "nest_clear" -> [S EXCEPT !.nests = <<[code |-> 0, p |-> "", ch |-> [a \in 1..NAlt(S) |-> a]]>>]
    [] OTHER -> S

-----------------------------------------------------------------------------
\* a pseudo random edit that is possible in S
Hows == <<0, 1, 2, 3, 4>>
Holders(S, i) == {m \in 1..Len(S.nests) : \E k \in 1..Len(S.nests[m].ch) : S.nests[m].ch[k] = i}
FreeCode(S) == CHOOSE c \in 20..40 : \A m \in 1..Len(S.nests) : S.nests[m].code # c
QTerm(s) == [p |-> Pick(s, 1, QNames), x |-> KCa + 1 + Rnd(s, 2, KQ)]

CaEdit(S, s) ==
  LET k == 1 + Rnd(s, 2, Len(S.ca))
      t == Term(Sub(s, 3), 1, KCa)
      h == Pick(s, 4, Hows)
      w == Rnd(s, 1, 8)
  IN IF S.ca = <<>> \/ w = 0 THEN [op |-> "edit", ed |-> "ca_set", how |-> h, ts |-> FillSeq(1 + Rnd(s, 5, 3), LAMBDA j : Term(Sub(s, 20 + j), 1, KCa))]
     ELSE IF w = 1 \/ w = 2 THEN [op |-> "edit", ed |-> "ca_add", how |-> h, t |-> t]
     ELSE IF w = 3 THEN [op |-> "edit", ed |-> "ca_put", how |-> h, t |-> t, k |-> k]
     ELSE IF w = 4 THEN [op |-> "edit", ed |-> "ca_del", how |-> h, k |-> k]
     ELSE IF w = 5 THEN [op |-> "edit", ed |-> "ca_rmp", how |-> h, p |-> S.ca[k].p]
     ELSE IF w = 6 THEN (IF Coin(s, 9, 60) THEN [op |-> "edit", ed |-> "ca_rmx", how |-> h, x |-> S.ca[k].x]
                         ELSE [op |-> "edit", ed |-> "ca_clear", how |-> h])
     ELSE [op |-> "edit", ed |-> "ca_ins", how |-> h, k |-> 1 + Rnd(s, 8, Len(S.ca) + 1), t |-> t]

CoEdit(S, s) ==
  LET a == 1 + Rnd(s, 2, NAlt(S))
      n == Len(S.co[a])
      k == 1 + Rnd(s, 3, n)
      h == Pick(s, 4, Hows)
      t == Term(Sub(s, 5), 0, KCo)
      w == IF n = 0 THEN Rnd(s, 1, 3) ELSE Rnd(s, 1, 10)
      ts(b) == FillSeq(1 + Rnd(s, 40 + b, 2), LAMBDA j : Term(Sub(s, 50 + 10 * b + j), 0, KCo))
  IN IF w = 0 \/ w = 1 THEN [op |-> "edit", ed |-> "co_add", how |-> h, a |-> a, t |-> t]
     ELSE IF w = 2 THEN (IF Coin(s, 8, 80) THEN [op |-> "edit", ed |-> "co_set", how |-> h, a |-> a, ts |-> ts(a)]
                         ELSE [op |-> "edit", ed |-> "co_all", how |-> h, co |-> FillSeq(NAlt(S), ts)])
     ELSE IF w = 3 THEN [op |-> "edit", ed |-> "co_put", how |-> h, a |-> a, k |-> k, t |-> t]
     ELSE IF w = 4 THEN [op |-> "edit", ed |-> "co_cut", how |-> h, a |-> a, k |-> k]
     ELSE IF w = 5 THEN [op |-> "edit", ed |-> "co_del", how |-> h, a |-> a]
     ELSE IF w = 6 THEN [op |-> "edit", ed |-> "co_rmp", how |-> h, a |-> a, p |-> S.co[a][k].p]
     ELSE IF w = 7 THEN [op |-> "edit", ed |-> "co_rmx", how |-> h, a |-> a, x |-> S.co[a][k].x]
     ELSE IF w = 8 THEN [op |-> "edit", ed |-> "co_ins", how |-> h, a |-> a, k |-> 1 + Rnd(s, 7, n + 1), t |-> t]
     ELSE [op |-> "edit", ed |-> "co_clear", how |-> h]

QEdit(S, s) ==
  LET h == Pick(s, 4, Hows)  w == Rnd(s, 1, 9)
      n == Len(S.q)  k == 1 + Rnd(s, 3, n)
  IN IF S.q = <<>> \/ w = 0 THEN [op |-> "edit", ed |-> "q_set", how |-> h, q |-> FillSeq(1 + Rnd(s, 5, 2), LAMBDA j : QTerm(Sub(s, 20 + j)))]
     ELSE IF w = 1 THEN [op |-> "edit", ed |-> "q_add", how |-> h, t |-> QTerm(Sub(s, 6))]
     ELSE IF w = 2 THEN [op |-> "edit", ed |-> "q_clear", how |-> h]
     ELSE IF w = 3 \/ w = 4 THEN [op |-> "edit", ed |-> "qs_set", how |-> h, p |-> IF Coin(s, 7, 70) THEN "qs" ELSE MNames[3]]
     ELSE IF w = 5 THEN [op |-> "edit", ed |-> "q_ins", how |-> h, k |-> 1 + Rnd(s, 8, n + 1), t |-> QTerm(Sub(s, 6))]
     ELSE IF w = 6 THEN [op |-> "edit", ed |-> "q_put", how |-> h, k |-> k, t |-> QTerm(Sub(s, 6))]
     ELSE IF w = 7 THEN (IF n = 1 THEN [op |-> "edit", ed |-> "q_clear", how |-> h]
                         ELSE IF Coin(s, 9, 50) THEN [op |-> "edit", ed |-> "q_del", how |-> h, k |-> k]
                         ELSE [op |-> "edit", ed |-> "q_rmp", how |-> h, p |-> S.q[k].p])
     ELSE [op |-> "edit", ed |-> "qs_clear", how |-> h]

NestEdit(S, s) ==
  LET h == Pick(s, 4, Hows)
      M == Len(S.nests)
      rt == S.nests[M]
      m == 1 + Rnd(s, 2, Max2(1, M - 1))
      sub == SelectSeq(rt.ch, LAMBDA i : Coin(s, 20 + i, 50))
      i == 1 + Rnd(s, 3, NAlt(S))
      from == CHOOSE x \in Holders(S, i) : TRUE
      to == 1 + Rnd(s, 6, M)
      w == Rnd(s, 1, 8)
  IN IF M = 1 \/ (w < 2 /\ M < 4)
     THEN [op |-> "edit", ed |-> "nest_add", how |-> h, code |-> FreeCode(S), p |-> Pick(s, 5, MNames),
           ch |-> IF sub = <<>> THEN <<rt.ch[1]>> ELSE sub]
     ELSE IF w = 2 THEN [op |-> "edit", ed |-> "nest_del", how |-> h, code |-> S.nests[m].code]
     ELSE IF w = 3 THEN [op |-> "edit", ed |-> "nest_clear", how |-> h]
     ELSE IF w < 6 /\ to # from /\ Cardinality(Holders(S, i)) = 1 /\ Len(S.nests[from].ch) > 1
     THEN [op |-> "edit", ed |-> "nest_move", how |-> h, i |-> i, from |-> S.nests[from].code, to |-> S.nests[to].code]
     ELSE [op |-> "edit", ed |-> "nest_par", how |-> h, code |-> S.nests[m].code, p |-> Pick(s, 7, MNames)]

GenEdit(S, s) ==
  LET w == Rnd(s, 99, 10)
      t == Sub(s, 98)
  IN IF w < 3 THEN CaEdit(S, t) ELSE IF w < 6 THEN CoEdit(S, t) ELSE IF w < 7 THEN QEdit(S, t) ELSE NestEdit(S, t)
=============================================================================

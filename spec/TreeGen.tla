------------------------------ MODULE TreeGen ------------------------------
(* Histories of nesting trees: pseudo random ones (Mode = "rand") from a seed,  *)
(* and every history of a small tree up to a depth (Mode = "all").               *)
EXTENDS Tree, Rand, Json
CONSTANTS Seed, NBeh, Depth, Mode
VARIABLES seed, hist, st
vars == <<seed, hist, st>>

AltsOf(h) == Rng(h[1].alts)
NestsIn(t, A) == (t.N \ A) \ {t.root}
CanLink(t, A, u, v) == u \notin A /\ v # t.root /\ v \in t.N /\ (u \in t.N => u \notin Below(t, v)) /\ u # v
AllViews == <<"nodes", "edges", "root", "elementals", "counts", "topo", "nests", "std", "slots", "pred", "succ", "desc", "multi", "multi2", "arr", "span", "par">>
Look(s) == IF Coin(s, 900, 20) THEN <<>> ELSE IF Coin(s, 901, 20) THEN AllViews ELSE SelectSeq(AllViews, LAMBDA x : Coin(s, 910 + IxOf(AllViews, x), 35))

NewOp(s) == LET n == 2 + Rnd(s, 1, 5)
            IN [op |-> "new", root |-> Pick(s, 2, <<0, 0, 99, 50, 7>>), how |-> Rnd(s, 3, 4), alts |-> Shuffle(s, SetToSeq({20 + ((i * 3 + Rnd(s, 4, 9)) % 11) : i \in 1..n}))]
RandOp(t, A, s) ==
  LET w  == Rnd(s, 1, 24)
      ne == NestsIn(t, A)
      free == {c \in 30..45 : c \notin t.N}
      low  == {c \in 1..6 : c \notin t.N}
      links == {x \in ((t.N \ A) \X t.N) : CanLink(t, A, x[1], x[2])}
      edges == {<<e.u, e.v>> : e \in t.E}
      \* (how a bulk addition treats an implied link is left open)
      plain == {x \in links : x[1] \in t.N /\ ~\E e \in t.E : e.v = x[2] /\ e.imp}
      nop == [op |-> "look"]
      par == Pick(s, 2, <<"mu1", "mu2", "mu3">>)
  IN CASE w < 6 /\ Cardinality(t.N) < 13 ->
            LET c == PickS(s, 3, IF Coin(s, 4, 30) THEN low ELSE free)
                ch == SubsetOf(s, 50, t.N \ {t.root}, 35)
                up == IF Coin(s, 5, 60) THEN <<>> ELSE First(SubsetOf(s, 100, (ne \cup {t.root}) \ UNION {Below(t, ch[i]) : i \in 1..Len(ch)}, 50), 2)
            IN [op |-> "nest", code |-> c, p |-> par, ch |-> Shuffle(s, ch), up |-> up, how |-> Rnd(s, 6, 3)]
       [] w < 10 /\ links # {} -> LET x == PickS(s, 7, links) IN [op |-> "edge", u |-> x[1], v |-> x[2]]
       [] w < 11 /\ free # {} /\ t.N # {t.root} -> [op |-> "edge", u |-> PickS(s, 8, free), v |-> PickS(s, 9, t.N \ {t.root})]
       [] w < 14 /\ edges # {} -> LET x == PickS(s, 10, edges) IN [op |-> "unedge", u |-> x[1], v |-> x[2]]
       [] w < 16 /\ ne # {} -> [op |-> "del", code |-> PickS(s, 11, ne)]
       [] w < 17 /\ Cardinality(A \cap t.N) > 2 -> [op |-> "del", code |-> PickS(s, 12, A \cap t.N)]
       [] w = 17 /\ ne # {} -> [op |-> "attr", code |-> PickS(s, 13, ne), p |-> par]
       [] w = 18 -> [op |-> "order", ord |-> Shuffle(s, SubsetOf(s, 150, A \cap t.N, 60))]
       [] w = 19 -> [op |-> "root", root |-> PickS(s, 14, {0, 99, 60, 3} \ t.N)]
       [] w = 20 /\ plain # {} -> [op |-> "bulk", es |-> <<PickS(s, 15, plain)>>]
       [] w = 21 /\ (\E x \in edges : Cardinality(Ins(t, x[2])) > 1) ->
            [op |-> "bulkdrop", es |-> <<PickS(s, 16, {x \in edges : Cardinality(Ins(t, x[2])) > 1})>>]
       [] w = 22 -> [op |-> Pick(s, 17, <<"copy", "pickle", "copy">>), how |-> Rnd(s, 18, 3)]
       [] w = 23 /\ (\E n \in ne : ~Leaf(t, n)) -> [op |-> "sub", code |-> PickS(s, 19, {n \in ne : ~Leaf(t, n)}), keep |-> Coin(s, 20, 70)]
       [] OTHER -> nop

Base == [op |-> "new", root |-> 0, how |-> 0, alts |-> <<1, 2, 3>>]
AllOps(t, A) ==
  LET ne == NestsIn(t, A)
      free == {c \in {10, 5} : c \notin t.N}
      links == {x \in ((t.N \ A) \X t.N) : CanLink(t, A, x[1], x[2]) /\ ~HasEdge(t, x[1], x[2])}
  IN {[op |-> "nest", code |-> c, p |-> "mu", ch |-> ch, up |-> <<>>, how |-> 0] : c \in free, ch \in {<<>>, <<1, 2>>, <<2, 3>>}}
     \cup {[op |-> "nest", code |-> c, p |-> "mu", ch |-> <<1>>, up |-> <<u>>, how |-> 0] : c \in free, u \in ne}
     \cup {[op |-> "edge", u |-> x[1], v |-> x[2]] : x \in links}
     \cup {[op |-> "unedge", u |-> e.u, v |-> e.v] : e \in t.E}
     \cup {[op |-> "del", code |-> c] : c \in ne}
     \cup (IF t.root = 0 THEN {[op |-> "root", root |-> 99]} ELSE {})

Init == /\ seed \in (IF Mode = "all" THEN {0} ELSE {Seed * 7919 + i : i \in 1..NBeh}) /\ hist = <<>> /\ st = Empty(0)
Step(e) == /\ hist' = Append(hist, e) /\ st' = Apply(st, e) /\ UNCHANGED seed
           /\ Len(hist') = Depth => PrintT("BEHAVIOUR " \o ToJson(hist'))
Next == /\ Len(hist) < Depth
        /\ IF Mode = "all"
           THEN IF hist = <<>> THEN Step(Base @@ [look |-> AllViews])
                ELSE \E e \in AllOps(st, {1, 2, 3}) : Step(e @@ [look |-> AllViews])
           ELSE LET s == Sub(seed, 1000 * Len(hist))
                IN Step(TLCEval((IF hist = <<>> THEN NewOp(s) ELSE RandOp(st, AltsOf(hist), s)) @@ [look |-> Look(Sub(s, 3))]))
Spec == Init /\ [][Next]_vars
\* laws: every history keeps a rooted network without cycles
LawRooted == hist # <<>> => Rooted(st) /\ Acyclic(st) /\ ImpliedOk(st)
=============================================================================

-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* A nesting tree over its life.  State t:                                   *)
(*   N the node codes, E the edges [u, v, imp], root, ord the suggested order  *)
(*   of elemental alternatives, par the parameter name of a node.              *)
(* The views that the tree offers (orderings, slots, counts, descendants) are  *)
(* functions of the state; an observation may show any of them.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Outs(t, n) == {e.v : e \in {x \in t.E : x.u = n}}
Ins(t, n)  == {e.u : e \in {x \in t.E : x.v = n}}
Leaf(t, n) == Outs(t, n) = {}
Leaves(t)  == {n \in t.N : Leaf(t, n)}
HasEdge(t, u, v) == \E e \in t.E : e.u = u /\ e.v = v

\* everything below n, and n itself
Below(t, n) == LET RECURSIVE Go(_, _)
                   Go(front, acc) == LET nx == UNION {Outs(t, m) : m \in front} \ acc
                                     IN IF nx = {} THEN acc ELSE Go(nx, acc \cup nx)
               IN Go({n}, {n})
Desc(t, n) == Below(t, n) \ (IF \E c \in Outs(t, n) : n \in Below(t, c) THEN {} ELSE {n})
ElemDesc(t, n) == IF Leaf(t, n) THEN {n} ELSE Desc(t, n) \cap Leaves(t)

\* laws of a tree
Rooted(t)  == t.root \in t.N /\ Below(t, t.root) = t.N
Acyclic(t) == \A n \in t.N : \A c \in Outs(t, n) : n \notin Below(t, c)
\* an implied link is the only one
ImpliedOk(t) == \A e \in t.E : e.imp => e.u = t.root

Empty(root) == [N |-> {root}, E |-> {}, root |-> root, ord |-> <<>>, par |-> (root :> "")]

DropE(E, u, v) == {e \in E : ~(e.u = u /\ e.v = v)}
\* a node that has no parent hangs from the root
Hang(t, n) == IF n # t.root /\ Ins(t, n) = {} THEN [t EXCEPT !.E = @ \cup {[u |-> t.root, v |-> n, imp |-> TRUE]}] ELSE t
AddN(t, n) == IF n \in t.N THEN t ELSE [t EXCEPT !.N = @ \cup {n}, !.par = @ @@ (n :> "")]
\* an explicit edge replaces the implied one of its child
Edge(t, u, v) ==
  LET a == AddN(AddN(t, u), v)
      b == [a EXCEPT !.E = {e \in DropE(@, u, v) : ~(e.v = v /\ e.imp)} \cup {[u |-> u, v |-> v, imp |-> FALSE]}]
  IN Hang(b, u)
RECURSIVE EdgesDn(_, _, _)
EdgesDn(t, u, vs) == IF vs = <<>> THEN t ELSE EdgesDn(Edge(t, u, Head(vs)), u, Tail(vs))
RECURSIVE EdgesUp(_, _, _)
EdgesUp(t, us, v) == IF us = <<>> THEN t ELSE EdgesUp(Edge(t, Head(us), v), Tail(us), v)
Par(t, n, p) == IF p = "" THEN t ELSE [t EXCEPT !.par[n] = p]
Node(t, n, p, ch, up) ==
  LET a == Par(AddN(t, n), n, p)
      b == EdgesDn(a, n, ch)
  IN Hang(EdgesUp(b, up, n), n)
UnEdge(t, u, v) == Hang([t EXCEPT !.E = DropE(@, u, v)], v)
Del(t, n) ==
  LET heads == Ins(t, n)
      outs  == {e \in t.E : e.u = n}
      kept  == {e \in t.E : e.u # n /\ e.v # n /\ ~(e.u \in heads /\ \E o \in outs : o.v = e.v)}
  IN [t EXCEPT !.N = @ \ {n}, !.par = [m \in (DOMAIN @) \ {n} |-> @[m]],
               !.E = kept \cup {[u |-> h, v |-> o.v, imp |-> o.imp] : h \in heads, o \in outs}]
ReRoot(t, r) ==
  [N |-> (t.N \ {t.root}) \cup {r}, root |-> r, ord |-> t.ord,
   par |-> [m \in ((DOMAIN t.par) \ {t.root}) |-> t.par[m]] @@ (r :> ""),
   E |-> {IF e.u = t.root THEN [e EXCEPT !.u = r] ELSE e : e \in t.E}]
RECURSIVE Bulk(_, _)
\* edges as they are named, nothing else
Bulk(t, es) == IF es = <<>> THEN t
               ELSE LET u == Head(es)[1]  v == Head(es)[2]
                    IN Bulk(IF HasEdge(t, u, v) THEN t ELSE [t EXCEPT !.E = @ \cup {[u |-> u, v |-> v, imp |-> FALSE]}], Tail(es))
RECURSIVE BulkDrop(_, _)
BulkDrop(t, es) == IF es = <<>> THEN t ELSE BulkDrop([t EXCEPT !.E = DropE(@, Head(es)[1], Head(es)[2])], Tail(es))
RECURSIVE Alts(_, _, _)
Alts(t, as, how) == IF as = <<>> THEN t
                    ELSE Alts(IF how = 1 THEN Node(t, Head(as), "", <<>>, <<t.root>>) ELSE Node(t, Head(as), "", <<>>, <<>>), Tail(as), how)
SubFrom(t, n) == LET B == Below(t, n)
                 IN [N |-> B, root |-> n, ord |-> SelectSeq(t.ord, LAMBDA a : a \in B), par |-> [m \in B |-> t.par[m]],
                     E |-> {e \in t.E : e.u \in B /\ e.v \in B}]

Apply(t, e) ==
  CASE e.op = "new"    -> Alts(Empty(e.root), e.alts, e.how)
    [] e.op = "nest"   -> Node(t, e.code, e.p, e.ch, e.up)
    [] e.op = "attr"   -> Par(t, e.code, e.p)
    [] e.op = "edge"   -> Edge(t, e.u, e.v)
    [] e.op = "unedge" -> UnEdge(t, e.u, e.v)
    [] e.op = "del"    -> Del(t, e.code)
    [] e.op = "root"   -> ReRoot(t, e.root)
    [] e.op = "order"  -> [t EXCEPT !.ord = e.ord]
    [] e.op = "bulk"   -> Bulk(t, e.es)
    [] e.op = "bulkdrop" -> BulkDrop(t, e.es)
    [] e.op = "sub"    -> IF e.keep THEN t ELSE SubFrom(t, e.code)
    [] OTHER -> t        \* look, copy, pickle

-----------------------------------------------------------------------------
MuOf(p) == CASE p = "mu" -> 500000 [] p = "mu1" -> 250000 [] p = "mu2" -> 375000 [] p = "mu3" -> 750000 [] OTHER -> 1000000
IxOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
IsPerm(s, S) == Len(s) = Cardinality(S) /\ Rng(s) = S
\* elemental alternatives: the suggested order first, then by code
ElemOk(t, s) ==
  /\ IsPerm(s, Leaves(t))
  /\ LET sug == SelectSeq(t.ord, LAMBDA a : a \in Leaves(t))
     IN /\ Len(sug) <= Len(s) /\ SubSeq(s, 1, Len(sug)) = sug
        /\ \A i \in (Len(sug) + 1)..(Len(s) - 1) : s[i] < s[i + 1]
ChildFirst(t, s) == \A i, j \in 1..Len(s) : HasEdge(t, s[i], s[j]) => j < i

Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
EdgePairs(t) == {<<e.u, e.v>> : e \in t.E}
CountNew(s, i) == \A j \in 1..(i - 1) : s[j][2] # s[i][2]

Views(t, o) ==
  LET has(f) == f \in DOMAIN o
      el == Leaves(t)
      nest == t.N \ el
  IN (IF has("nodes") THEN <<<<"nodes", Rng(o.nodes) = t.N /\ Len(o.nodes) = Cardinality(t.N)>>>> ELSE <<>>)
  \o (IF has("edges") THEN <<<<"edges", Pairs(o.edges) = EdgePairs(t) /\ Len(o.edges) = Cardinality(t.E)>>>> ELSE <<>>)
  \o (IF has("root") THEN <<<<"root", o.root = t.root>>>> ELSE <<>>)
  \o (IF has("elementals") THEN <<<<"elemental alternatives", ElemOk(t, o.elementals)>>>> ELSE <<>>)
  \o (IF has("counts") THEN <<<<"counts", o.counts = <<Cardinality(t.N), Cardinality(t.E), Cardinality(el), Cardinality(t.N) - Cardinality(el) - 1>>>>>> ELSE <<>>)
  \o (IF has("topo") THEN <<<<"topological order", IsPerm(o.topo, t.N) /\ ChildFirst(t, o.topo) /\ (Len(o.topo) > 1 => o.topo[Len(o.topo)] = t.root)>>>> ELSE <<>>)
  \o (IF has("nests") THEN <<<<"topological order of nests", IsPerm(o.nests, nest) /\ ChildFirst(t, o.nests)>>>> ELSE <<>>)
  \o (IF has("std") THEN <<<<"standard order", /\ IsPerm(o.std, t.N) /\ ChildFirst(t, o.std)
                                               /\ ElemOk(t, SubSeq(o.std, 1, Cardinality(el)))
                                               /\ o.std[Len(o.std)] = t.root>>>> ELSE <<>>)
  \o (IF has("slots") THEN <<<<"slots", \A i \in 1..Len(o.slots) : o.slots[i] = i - 1>>,
                             <<"slots", Len(o.slots) = Cardinality(t.N)>>>> ELSE <<>>)
  \o (IF has("pred") THEN <<<<"predecessor slots", \A n \in t.N : Rng(o.pred[ToString(n)]) = Ins(t, n) /\ Len(o.pred[ToString(n)]) = Cardinality(Ins(t, n))>>>> ELSE <<>>)
  \o (IF has("succ") THEN <<<<"successor slots", \A n \in t.N : Rng(o.succ[ToString(n)]) = Outs(t, n) /\ Len(o.succ[ToString(n)]) = Cardinality(Outs(t, n))>>>> ELSE <<>>)
  \o (IF has("desc") THEN <<<<"elemental descendants", \A n \in t.N : Rng(o.desc[ToString(n)]) = ElemDesc(t, n) /\ Len(o.desc[ToString(n)]) = Cardinality(ElemDesc(t, n))>>>> ELSE <<>>)
  \o (IF has("multi") THEN <<<<"edges that compete", LET want == {p \in EdgePairs(t) : Cardinality(Ins(t, p[2])) > 1}
                                                     IN Pairs(o.multi) = want /\ Len(o.multi) = Cardinality(want)>>>> ELSE <<>>)
  \o (IF has("multi2") THEN <<<<"edges that compete, by node", LET want == {n \in t.N : Cardinality(Ins(t, n)) > 1}
                                                     IN /\ {o.multi2[i].n : i \in 1..Len(o.multi2)} = want /\ Len(o.multi2) = Cardinality(want)
                                                        /\ \A i \in 1..Len(o.multi2) : /\ Rng(o.multi2[i].by) = Ins(t, o.multi2[i].n)
                                                                                       /\ \A j \in 1..(Len(o.multi2[i].by) - 1) : o.multi2[i].by[j] < o.multi2[i].by[j + 1]>>>> ELSE <<>>)
  \* arrays for the computation: every edge once, those of one nest together, the first visit of each child marked
  \o (IF has("arr") THEN <<<<"edge arrays", /\ Pairs(o.arr) = EdgePairs(t) /\ Len(o.arr) = Cardinality(t.E)
                                            /\ \A i \in 1..Len(o.arr) : (o.arr[i][3] = 1) = CountNew(o.arr, i)>>>> ELSE <<>>)
  \o (IF has("span") THEN <<<<"node arrays", \A n \in t.N : LET r == o.span[ToString(n)]
                                               IN /\ r[2] = Cardinality(Outs(t, n))
                                                  /\ \A i \in 1..Len(o.spanarr) : (o.spanarr[i][1] = n) = (i > r[1] /\ i <= r[1] + r[2] /\ r[2] > 0)>>>> ELSE <<>>)
  \o (IF has("mu") THEN <<<<"scale parameters of nests", \A n \in t.N : o.mu[ToString(n)] = MuOf(t.par[n])>>>> ELSE <<>>)
  \o (IF has("par") THEN <<<<"parameters of nests", \A n \in t.N : o.par[ToString(n)] = t.par[n]>>>> ELSE <<>>)
  \o (IF has("same") THEN <<<<"equals the tree it was made from", o.same>>>> ELSE <<>>)
  \o (IF has("apart") THEN <<<<"changing a copy leaves the original alone", Pairs(o.apart) = EdgePairs(t)>>>> ELSE <<>>)

Judge(t, e) ==
  IF e.err # "" THEN <<<<"no error: " \o e.err, FALSE>>>>
  ELSE Views(IF e.op = "sub" /\ e.keep THEN SubFrom(t, e.code) ELSE t, e.obs)
=============================================================================

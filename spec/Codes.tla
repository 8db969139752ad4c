------------------------------ MODULE Codes ------------------------------
(* Systematic alternatives.  An alternative is a combination of features and *)
(* a number (the how manyth of that combination in its case); its code is      *)
(* any number that is its own, that decodes to it, and that puts it into just      *)
(* the nests of its features.  A row is [c |-> case, f |-> features].             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* how manyth row of its kind in its case
Nth(rows, i) == Cardinality({j \in 1..i : rows[j].c = rows[i].c /\ rows[j].f = rows[i].f})
Key(rows, i) == [f |-> rows[i].f, k |-> Nth(rows, i)]
KeysOf(dfs) == UNION {{Key(dfs[d], i) : i \in 1..Len(dfs[d])} : d \in 1..Len(dfs)}
ValName(kinds, i, v) == IF kinds[i] = "str" THEN <<"p", "q", "r">>[i] \o ToString(v) ELSE ToString(10 * i + v) \o (IF kinds[i] = "num" THEN ".0" ELSE "")
\* the values of feature i, in order
Used(dfs, i) == {dfs[d][j].f[i] : <<d, j>> \in {x \in (1..Len(dfs)) \X (1..40) : x[2] <= Len(dfs[x[1]])}}
Cats(e, i) == IF e.comp[i] # <<>> THEN e.comp[i] ELSE SetToSortSeq(Used(e.dfs, i), LAMBDA a, b : a < b)
Pos(cat, v) == CHOOSE j \in 1..Len(cat) : cat[j] = v
Pre(e, i) == IF e.pre = <<>> THEN "" ELSE e.pre[i]
\* name of the w-th value (or of one beyond the last)
PosName(e, cats, i, w) == IF w <= Len(cats[i]) THEN Pre(e, i) \o ValName(e.kinds, i, cats[i][w])
                          ELSE "+" \o ToString(w - Len(cats[i]))
RECURSIVE Joined(_, _, _, _, _)
Joined(e, cats, q, i, last) == IF i > Len(e.kinds) THEN last
  ELSE (IF i <= Len(q) THEN PosName(e, cats, i, q[i]) ELSE ".") \o "-" \o Joined(e, cats, q, i + 1, last)
AllCats(e) == [i \in 1..Len(e.kinds) |-> Cats(e, i)]
QOf(cats, f) == [i \in 1..Len(f) |-> Pos(cats[i], f[i])]
AltName(e, cats, key) == Joined(e, cats, QOf(cats, key.f), 1, ToString(key.k))

\* the nests of level l: combinations of the first l features, the last of which reaches over t more
NestsAt(cats, keys, t, l) == {[i \in 1..l |-> QOf(cats, x[1].f)[i] + (IF i = l THEN x[2] ELSE 0)] : x \in keys \X (0..t[l])}
\* is q (a nest of the next level or an alternative) in nest n?
InNest(n, q, t) == LET l == Len(n) IN (\A i \in 1..l - 1 : n[i] = q[i]) /\ q[l] <= n[l] /\ n[l] <= q[l] + t[l]

St0 == [c |-> <<>>]
Apply(st, e) == IF e.op = "code" THEN [c |-> <<e>>] ELSE st
LastCode(st) == st.c[1]

-----------------------------------------------------------------------------
\* (codes of rows, one list for each table)
Flat(e, o) == UNION {{<<Key(e.dfs[d], i), o.codes[d][i]>> : i \in 1..Len(e.dfs[d])} : d \in 1..Len(e.dfs)}
Shapes(e, o) == Len(o.codes) = Len(e.dfs) /\ \A d \in 1..Len(e.dfs) : Len(o.codes[d]) = Len(e.dfs[d])
OneToOne(pairs) == Cardinality(pairs) = Cardinality({x[1] : x \in pairs}) /\ Cardinality(pairs) = Cardinality({x[2] : x \in pairs})
JudgeTables(e, o) ==
  <<<<"every row has a code", Shapes(e, o)>>,
    <<"other data are kept", o.kept>>, <<"the source is not changed", o.src>>, <<"the index has the names asked for", o.ix>>,
    <<"rows stay with their cases", Len(o.cases) = Len(e.dfs) /\ \A d \in 1..Len(e.dfs) : o.cases[d] = [i \in 1..Len(e.dfs[d]) |-> e.dfs[d][i].c]>>>>
JudgeCode(e, o) ==
  LET cats == AllCats(e)  pairs == TLCEval(Flat(e, o)) IN
  IF ~Shapes(e, o) THEN JudgeTables(e, o) ELSE
  JudgeTables(e, o) \o
  <<<<"codes and alternatives are one to one", OneToOne(pairs)>>,
    <<"the list of codes has them all in order", ToSet(o.alts) = {x[2] : x \in pairs} /\ \A i \in 1..Len(o.alts) - 1 : o.alts[i] < o.alts[i + 1]>>,
    <<"codes decode to their source", \A x \in pairs : ToString(x[2]) \in DOMAIN o.names /\ o.names[ToString(x[2])] = AltName(e, cats, x[1])>>,
    <<"the names of the alternatives are those of the codes", Len(o.altnames) = Len(o.alts) /\ \A i \in 1..Len(o.alts) :
         ToString(o.alts[i]) \in DOMAIN o.names /\ o.names[ToString(o.alts[i])] = o.altnames[i]>>>>
JudgeAgain(st, e, o) ==
  LET b == LastCode(st)  cats == AllCats(b)
      new == TLCEval(Flat(e, o))  old == TLCEval(Flat(b, b.obs)) IN
  IF ~Shapes(e, o) THEN JudgeTables(e, o) ELSE
  JudgeTables(e, o) \o
  <<<<"tables are coded in the same way again", OneToOne(new \cup old)>>,
    <<"codes decode to their source", \A x \in new : ToString(x[2]) \in DOMAIN o.names /\ o.names[ToString(x[2])] = AltName(b, cats, x[1])>>>>
JudgeNest(st, e, o) ==
  LET b == LastCode(st)  cats == TLCEval(AllCats(b))  keys == TLCEval(KeysOf(b.dfs))  L == Len(b.kinds)  t == [i \in 1..L |-> e.cover[i] - 1]
      At == TLCEval([l \in 1..L |-> NestsAt(cats, keys, t, l)])
      nm(n) == Joined(b, cats, n, 1, ".")
      all == UNION {At[l] : l \in 1..L}
      kids(n) == IF Len(n) = L THEN {AltName(b, cats, x) : x \in {y \in keys : InNest(n, QOf(cats, y.f), t)}}
                 ELSE {nm(x) : x \in {y \in At[Len(n) + 1] : InNest(n, y, t)}}
  IN <<<<"there is a nest for every combination of features", DOMAIN o.nests = {nm(n) : n \in all}>>,
       <<"nests have the parameter of their level", \A n \in all : nm(n) \in DOMAIN o.nests => o.nests[nm(n)].p = e.mu[Len(n)]>>,
       <<"nests have the alternatives that share the features", \A n \in all : nm(n) \in DOMAIN o.nests => ToSet(o.nests[nm(n)].ch) = kids(n)>>,
       <<"the root has what is in no nest", ToSet(o.root) = IF L = 0 THEN {AltName(b, cats, x) : x \in keys} ELSE {nm(n) : n \in At[1]}>>,
       <<"the alternatives of the tree are those of the data", ToSet(o.leaves) = {AltName(b, cats, x) : x \in keys}>>>>
\* a data collection with new alternatives holds the same data
JudgeFrames(e, o) ==
  LET cats == AllCats(e)  rows == e.dfs[1] IN
  <<<<"alternatives of the collection", o.an = [i \in 1..Len(o.an) |-> o.an[i]] /\ ToSet(o.an) = {AltName(e, cats, x) : x \in KeysOf(e.dfs)}
                                        /\ Len(o.an) = Cardinality(ToSet(o.an))>>,
    <<"values of the collection", Len(o.v) = Len(rows) /\ \A i \in 1..Len(rows) :
         \E j \in 1..Len(o.v) : o.v[j] = [c |-> rows[i].c, a |-> AltName(e, cats, Key(rows, i)), x |-> i]>>,
    <<"choices of the collection", \A c \in {rows[i].c : i \in 1..Len(rows)} :
         LET ix == {i \in 1..Len(rows) : rows[i].c = c /\ e.ch[i] = 1} IN
         ToString(c) \in DOMAIN o.ch /\ ToSet(o.ch[ToString(c)]) = {AltName(e, cats, Key(rows, i)) : i \in ix}>>,
    <<"availability of the collection", \A c \in {rows[i].c : i \in 1..Len(rows)} :
         LET ix == {i \in 1..Len(rows) : rows[i].c = c} IN
         ToString(c) \in DOMAIN o.av /\ ToSet(o.av[ToString(c)]) = {AltName(e, cats, Key(rows, i)) : i \in ix}>>,
    <<"the first collection is not changed", o.src>>>>
Judge(st, e) ==
  IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>>
  ELSE CASE e.op = "code" -> JudgeCode(e, e.obs)
         [] e.op = "again" -> IF st.c = <<>> \/ LastCode(st).err # "" THEN <<>> ELSE JudgeAgain(st, e, e.obs)
         [] e.op = "nest" -> IF st.c = <<>> \/ LastCode(st).err # "" THEN <<>> ELSE JudgeNest(st, e, e.obs)
         [] e.op = "frames" -> JudgeFrames(e, e.obs)
=============================================================================

------------------------------- MODULE Group -------------------------------
(* A group of models with parameters in common: one set of values, and a log  *)
(* likelihood that is the sum of those of the members.                         *)
(*                                                                             *)
(* state:  M  sequence of members [S, D, V, H, N]                              *)
(*         V, H, N, L  values, held-fast names, null values and limits of the  *)
(*             parameters that the group knows (a member that joins brings     *)
(*             those that are new; the others take the values of the group)    *)
(*         W  values before the last estimation                                *)
(*         ev  evaluations since the group last changed                        *)
EXTENDS Lifecycle

MNew(m) == LET ns == SpecNames(m.S)
           IN [S |-> m.S, D |-> m.D, V |-> m.V, H |-> ToSet(m.H),
               N |-> [p \in ns |-> IF p \in ToSet(m.H) THEN m.V[p] ELSE Default(p)],
               L |-> [p \in ns |-> IF p \in ToSet(m.H) THEN <<m.V[p], m.V[p]>> ELSE DefaultLimits(p)]]

\* the first member that has it brings a parameter to the group
Owner(M, p) == CHOOSE i \in 1..Len(M) : p \in SpecNames(M[i].S) /\ \A j \in 1..(i - 1) : p \notin SpecNames(M[j].S)
GNames(M) == UNION {SpecNames(M[i].S) : i \in 1..Len(M)}
Import(g) ==
  LET new == GNames(g.M) \ DOMAIN g.V
      all == DOMAIN g.V \cup new
      of(f, p) == IF p \in DOMAIN g.V THEN f ELSE 0
  IN IF new = {} THEN g ELSE
     [g EXCEPT !.V = [p \in all |-> IF p \in new THEN g.M[Owner(g.M, p)].V[p] ELSE g.V[p]],
               !.N = [p \in all |-> IF p \in new THEN g.M[Owner(g.M, p)].N[p] ELSE g.N[p]],
               !.L = [p \in all |-> IF p \in new THEN g.M[Owner(g.M, p)].L[p] ELSE g.L[p]],
               !.H = @ \cup {p \in new : p \in g.M[Owner(g.M, p)].H}]

\* log likelihood, score and outer products of the group at values V
AllCases(m) == [c \in 1..m.D.n |-> c]
MRs(m, V, PS) == [c \in 1..m.D.n |-> Case(m.S, m.D, V, PS, c)]
SumN(s) == IF \E i \in 1..Len(s) : ~IsNum(s[i]) THEN NInf ELSE SumSeq(s)
GLL(M, V) == SumN([i \in 1..Len(M) |-> TotalLL(M[i].S, M[i].D, TLCEval(MRs(M[i], V, <<>>)), AllCases(M[i]))])
GPS(M) == SelectSeq(AllNames, LAMBDA p : p \in GNames(M))

\* (values that fixed point arithmetic cannot follow leave the statistics open)
GRec(g, V, must) == LET w == ~Moderate(V)
                    IN [g EXCEPT !.ev = Append(@, [ll |-> IF w THEN 0 ELSE GLL(g.M, V), wild |-> w, must |-> must])]

Silent == {"gapp", "gins", "gput", "gdel", "mset", "mdata"}
ApplyG(g0, e) ==
  LET g == IF e.op \in Silent \cup {"gnew"} THEN g0 ELSE Import(g0) IN
  CASE e.op = "gnew" -> Import([M |-> [i \in 1..Len(e.M) |-> MNew(e.M[i])], V |-> [p \in {} |-> 0], N |-> [p \in {} |-> 0],
                                L |-> [p \in {} |-> <<0, 0>>], H |-> {}, W |-> [p \in {} |-> 0], ev |-> <<>>])
    [] e.op = "gapp" -> [g EXCEPT !.M = Append(@, MNew(e.m)), !.ev = <<>>]
    [] e.op = "gins" -> [g EXCEPT !.M = SubSeq(@, 1, e.k - 1) \o <<MNew(e.m)>> \o SubSeq(@, e.k, Len(@)), !.ev = <<>>]
    [] e.op = "gput" -> [g EXCEPT !.M[e.k] = MNew(e.m), !.ev = <<>>]
    [] e.op = "gdel" -> [g EXCEPT !.M = SubSeq(@, 1, e.k - 1) \o SubSeq(@, e.k + 1, Len(@)), !.ev = <<>>]
    \* (values given to a member do not last, unless the group has not seen the parameter yet)
    [] e.op = "mset" -> [g EXCEPT !.M[e.k].V = Upd(@, e.v)]
    [] e.op = "mdata" -> [g EXCEPT !.M[e.k].D = e.D, !.ev = <<>>]
    [] e.op = "set" -> [g EXCEPT !.V = IF e.how = "value" THEN Upd(@, e.v)
                                       ELSE IF e.how = "null" THEN UpdFree(@, g.H, g.N)
                                       ELSE UpdFree(@, g.H, e.v)]
    [] e.op = "nullv" -> [g EXCEPT !.N = Upd(@, e.v)]
    [] e.op = "lock" -> [g EXCEPT !.V = Upd(@, e.v), !.N = Upd(@, e.v), !.H = @ \cup DOMAIN e.v,
                                  !.L = [p \in DOMAIN @ |-> IF p \in DOMAIN e.v THEN <<e.v[p], e.v[p]>> ELSE @[p]]]
    [] e.op = "hold" -> [g EXCEPT !.H = IF e.on THEN @ \cup {e.p} ELSE @ \ {e.p}]
    [] e.op = "bound" -> [g EXCEPT !.L = [p \in DOMAIN @ |-> IF p \in DOMAIN e.v THEN e.v[p] ELSE @[p]]]
    [] e.op = "cap" -> [g EXCEPT !.L = [p \in DOMAIN @ |-> IF Max2(@[p][1], -e.c) <= Min2(@[p][2], e.c)
                                                             THEN <<Max2(@[p][1], -e.c), Min2(@[p][2], e.c)>> ELSE @[p]]]
    [] e.op = "geval" -> LET v == UpdFree(g.V, g.H, e.x) IN GRec([g EXCEPT !.V = v], v, TRUE)
    [] e.op = "stat" -> IF e.which = "null" THEN GRec(g, UpdFree(g.V, g.H, g.N), FALSE) ELSE g
    [] e.op = "est" -> LET v == IF "obs" \in DOMAIN e /\ "vals" \in DOMAIN e.obs THEN Upd(g.V, e.obs.vals) ELSE g.V
                       IN [g EXCEPT !.W = g.V, !.V = v, !.ev = <<[ll |-> 0, wild |-> TRUE, must |-> FALSE]>>]

GVals(g, o) == DOMAIN o.vals = DOMAIN g.V /\ \A p \in DOMAIN g.V : Close(o.vals[p], g.V[p], 2)

JudgeG(g, e) ==
  LET o == e.obs
      live(p) == p \notin g.H
      has(f) == f \in DOMAIN o
      PS == GPS(g.M)
      own == [i \in 1..Len(g.M) |-> NamesSeq(g.M[i].S)]
      Rs == TLCEval([i \in 1..Len(g.M) |-> TLCEval(MRs(g.M[i], g.V, own[i]))])
      at(i, p) == IF \E k \in 1..Len(own[i]) : own[i][k] = p THEN CHOOSE k \in 1..Len(own[i]) : own[i][k] = p ELSE 0
      sc(p) == SumSeq([i \in 1..Len(g.M) |-> IF at(i, p) = 0 THEN 0 ELSE Score(g.M[i].S, g.M[i].D, Rs[i], AllCases(g.M[i]), at(i, p))])
      LLok == CloseRel(o.ll, g.ev[Len(g.ev)].ll, 2 * TolL)
      \* the derivative along a held-fast parameter may be given as zero
      dLLok == /\ DOMAIN o.dll = DOMAIN g.V
               /\ \A p \in DOMAIN g.V \ GNames(g.M) : o.dll[p] = 0
               /\ \A k \in 1..Len(PS) : (live(PS[k]) \/ o.dll[PS[k]] # 0) => CloseRel(o.dll[PS[k]], sc(PS[k]), 2 * TolL)
      vals == <<<<"values of the group", GVals(g, o)>>>>
  IN IF e.op \in Silent THEN IF e.err = "" THEN <<>> ELSE <<<<"raised " \o e.err, FALSE>>>>
     ELSE IF g.M = <<>> THEN <<>>
     ELSE IF ~Moderate(g.V) THEN <<>>
     ELSE IF e.op = "est" /\ ~Moderate(g.W) THEN <<>>
     ELSE IF e.op = "est" /\ e.err # "" /\ o.lost THEN <<>>
     ELSE IF e.err # "" THEN <<<<"raised " \o e.err, FALSE>>>>
     ELSE CASE e.op \in {"gnew", "set", "nullv", "lock", "hold"} -> vals
       [] e.op \in {"bound", "cap"} -> vals \o
             <<<<"limits", \A p \in DOMAIN g.L \cap DOMAIN o.limits : Close(Max2(-Wide, o.limits[p][1]), g.L[p][1], 1) /\ Close(Min2(Wide, o.limits[p][2]), g.L[p][2], 1)>>>>
       [] e.op = "geval" -> vals
            \o (IF has("ll") THEN <<<<"log likelihood is the sum over the members", LLok>>>> ELSE <<>>)
            \o (IF has("dll") THEN <<<<"score is the sum over the members", dLLok>>>> ELSE <<>>)
            \o (IF has("parts") THEN <<<<"log likelihood of every member",
                   /\ Len(o.parts) = Len(g.M)
                   /\ \A i \in 1..Len(g.M) : CloseRel(o.parts[i], GLL(<<g.M[i]>>, g.V), TolL)>>>> ELSE <<>>)
            \o <<<<"members have the values of the group",
                   /\ Len(o.mvals) = Len(g.M)
                   /\ \A i \in 1..Len(g.M) : /\ SpecNames(g.M[i].S) \subseteq DOMAIN o.mvals[i]
                                             /\ \A p \in SpecNames(g.M[i].S) : Close(o.mvals[i][p], g.V[p], 2)>>,
                 <<"number of cases", o.n = SumSeq([i \in 1..Len(g.M) |-> g.M[i].D.n])>>,
                 <<"total weight", CloseRel(o.tw, SumSeq([i \in 1..Len(g.M) |-> Mul(g.M[i].D.norm, SumSeq(g.M[i].D.wt))]), TolL)>>>>
       [] e.op = "stat" -> (CASE e.which = "null" -> <<<<"log likelihood at null values", g.ev[Len(g.ev)].wild \/ CloseRel(o.ll, g.ev[Len(g.ev)].ll, 2 * TolL)>>>>
            [] e.which = "best" -> IF \E i \in 1..Len(g.ev) : g.ev[i].wild THEN <<>> ELSE LET best == FoldSeq(LAMBDA x, y : IF x.must THEN Max2(x.ll, y) ELSE y, NInf, g.ev)
                 IN <<<<"best log likelihood is the highest", o.has => CloseRel(o.ll, Max2(o.ll, best), 2 * TolL)>>,
                      <<"best log likelihood was reached", (o.has /\ g.ev # <<>>) =>
                          \E i \in 1..Len(g.ev) : CloseRel(o.ll, g.ev[i].ll, 2 * TolL)>>>>) \o vals
       [] e.op = "est" -> LET full(x) == [p \in DOMAIN g.V |-> IF p \in DOMAIN x THEN x[p] ELSE g.V[p]]
                              X == full(o.x)
                              a == GLL(g.M, g.W)  b == GLL(g.M, g.V)
            IN <<<<"held-fast parameters keep their values", \A p \in g.H : Abs(g.V[p] - g.W[p]) <= 1>>,
                 <<"parameters stay within their bounds", InLimits(g, g.W) => InLimits(g, g.V)>>,
                 <<"ends no lower than it started", (o.conv /\ InLimits(g, g.W)) => ~IsNum(a) \/ (IsNum(b) /\ b >= a - Max2(300, Mul(300, Abs(a))))>>,
                 <<"the reported parameters are those of the group", DOMAIN o.x = DOMAIN g.V /\ \A p \in DOMAIN o.x : Close(o.x[p], o.vals[p], 2)>>,
                 <<"the reported log likelihood is that of the reported parameters", Moderate(X) => CloseRel(o.ll, GLL(g.M, X), 2 * TolL)>>,
                 <<"the reported log likelihood is that of the group", IsNum(o.ll) => CloseRel(o.ll, o.again, TolL)>>>>
=============================================================================

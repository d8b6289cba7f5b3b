------------------------------ MODULE TraceProj ------------------------------
(* Recorded calls of the projected-forest estimators, judged by ProjForest and SearchDef. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, ProjForest, RuleGrowth, SearchDef, TraceSearch, TraceBase
SX == INSTANCE SequencesExt
VARIABLES n, res

(***************************************************************************)
(* A case has trees, m, data with targets yd, rows X with targets y.       *)
(* A request has least (the smallest cell), clf (1: same class), and t,    *)
(* an interval of targets per row; kind says which targets count.          *)
(***************************************************************************)
Kind(q) == IF "kind" \in DOMAIN q THEN q.kind ELSE "sdp"
Target(c, q, i) == IF "y" \in DOMAIN q THEN q.y[i] ELSE c.y[i]
Inside(c, q, i) == {k \in DOMAIN c.yd : IF q.clf = 1 THEN QEq(c.yd[k], Target(c, q, i)) ELSE QLe(q.t[i][1], c.yd[k]) /\ QLe(c.yd[k], q.t[i][2])}
Counted(c, q, i) == IF Kind(q) = "ddp" THEN (DOMAIN c.yd) \ Inside(c, q, i) ELSE Inside(c, q, i)

GuidesOf(c, q, i, S) ==
  TLCEval([b \in DOMAIN c.trees |->
    IF "cond" \notin DOMAIN q THEN Follow(c.trees[b], c.X[i], S)
    ELSE IF q.outside = 1 THEN OutsideBox(c.trees[b], S, q.cond[i])
    ELSE FollowBox(c.trees[b], c.X[i], S, q.cond[i])])
\* refine = 1: the walks that never drop below the smallest cell
WalksOf(c, q, i, S) ==
  IF "refine" \notin DOMAIN q THEN Walks(c.trees, GuidesOf(c, q, i, S), c.data, q.least)
  ELSE LET d == ForestDepth(c.trees)
           g == GuidesOf(c, q, i, S)
       IN  TLCEval([b \in DOMAIN c.trees |-> WalkRefining(c.trees[b], g[b], c.data, q.least, d)])
Worth(c, q, i, S) == MassOf(WalksOf(c, q, i, S), Counted(c, q, i))

\* the ten columns the search keeps to
Space(c, q) == IF "space" \in DOMAIN q THEN q.space ELSE [j \in 1..c.m |-> j]

SameBox(a, b) == \A j \in DOMAIN b : a[j][1] = b[j][1] /\ a[j][2] = b[j][2]

Request(c, k) ==
  LET q == c.calls[k]
      N == Len(c.rows)
      tol == IF "tol" \in DOMAIN q THEN q.tol ELSE Tol
      S == IF "S" \in DOMAIN q THEN [i \in DOMAIN c.X |-> ToSet(q.S[i])] ELSE <<>>
      Vec(out, e) == IF ~IsVec(out, N) THEN {"shape"}
                     ELSE If(\A r \in 1..N : e[c.rows[r]] = "any" \/ QClose(out[r], e[c.rows[r]], tol), "value")
  IN
  CASE q.f = "psdp" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> Worth(c, q, i, S[i])])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "pexp" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> MeanOf(WalksOf(c, q, i, S[i]), c.yd)])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "pcdf" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> MassOf(WalksOf(c, q, i, S[i]), {z \in DOMAIN c.yd : QLe(c.yd[z], q.at[i])})])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "pquantile" ->  \* diff = 1: of the differences to the target of the row
         LET d == ForestDepth(c.trees)
             W(i) == LET g == GuidesOf(c, q, i, S[i]) IN
                     TLCEval([b \in DOMAIN c.trees |-> IF q.diff = 1 THEN Walk(c.trees[b], g[b], c.data, q.least, d)
                                                       ELSE WalkRefining(c.trees[b], g[b], c.data, q.least, d)])
             e == TLCEval([i \in DOMAIN c.X |->
                    LET w == W(i) IN Quantile(IF q.diff = 1 THEN TLCEval([z \in DOMAIN c.yd |-> QSub(c.y[i], c.yd[z])]) ELSE c.yd,
                                              TLCEval([z \in DOMAIN c.yd |-> Weight(w, z)]), q.q)])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "prule" ->  \* out: value, rule
         LET g == TLCEval([i \in DOMAIN c.X |-> GuidesOf(c, q, i, S[i])])
             w == TLCEval([i \in DOMAIN c.X |-> Walks(c.trees, g[i], c.data, q.least)])
             e == TLCEval([i \in DOMAIN c.X |-> MassOf(w[i], Counted(c, q, i))])
             b == TLCEval([i \in DOMAIN c.X |-> Rule(c.trees, w[i], g[i], c.m)])
             Judge(out) == Vec(out.value, e) \cup
               (IF Len(out.rule) # N THEN {"shape"} ELSE If(\A r \in 1..N : SameBox(out.rule[r], b[c.rows[r]]), "rule"))
         IN Failing(k, q, Judge)
    [] q.f = "pweights" ->  \* out: value, w
         LET w == TLCEval([i \in DOMAIN c.X |-> WalksOf(c, q, i, S[i])])
             e == TLCEval([i \in DOMAIN c.X |-> MassOf(w[i], Counted(c, q, i))])
             Judge(out) == Vec(out.value, e) \cup
               (IF ~IsMat(out.w, N, Len(c.data)) THEN {"shape"}
                ELSE If(\A r \in 1..N : \A z \in DOMAIN c.data : QClose(out.w[r][z], Weight(w[c.rows[r]], z), tol), "weights"))
         IN Failing(k, q, Judge)
    [] q.f = "pmax" ->  \* out: value, rule, all, drule, w
         LET own == TLCEval([i \in DOMAIN c.X |-> GuidesOf(c, q, i, S[i])])
             w == TLCEval([i \in DOMAIN c.X |-> Walks(c.trees, own[i], c.data, q.least)])
             e == TLCEval([i \in DOMAIN c.X |-> MassOf(w[i], Counted(c, q, i))])
             wt == TLCEval([i \in DOMAIN c.X |-> TLCEval([z \in DOMAIN c.data |-> Weight(w[i], z)])])
             b == TLCEval([i \in DOMAIN c.X |-> Rule(c.trees, w[i], own[i], c.m)])
             at(i, z) == Guides(c.trees, z, S[i])
             Wz(i, z) == Walks(c.trees, at(i, z), c.data, q.least)
             worth(i, z) == MassOf(Wz(i, z), Counted(c, q, i))
             dw == TLCEval([i \in DOMAIN c.X |-> TLCEval([z \in DOMAIN c.data |-> Wz(i, c.data[z])])])
             dv == TLCEval([i \in DOMAIN c.X |-> TLCEval([z \in DOMAIN c.data |-> MassOf(dw[i][z], Counted(c, q, i))])])
             dr == TLCEval([i \in DOMAIN c.X |-> TLCEval([z \in DOMAIN c.data |-> Rule(c.trees, dw[i][z], at(i, c.data[z]), c.m)])])
             near(i) == {z \in DOMAIN c.data : ~QEq(wt[i][z], 0)}
             low(v) == QLt(v, q.pi) /\ ~QClose(v, q.pi, tol)
             grown(i) == {z \in near(i) : ~QLt(dv[i][z], q.pi) /\ ~QClose(dv[i][z], q.pi, tol)}
             unsure(i) == \E z \in near(i) : QClose(dv[i][z], q.pi, tol)
             Judge(out) ==
               IF ~(IsVec(out.value, N) /\ Len(out.rule) = N /\ IsMat(out.all, N, Len(c.data)) /\ IsMat(out.w, N, Len(c.data)) /\ IsMat(out.drule, N, Len(c.data))) THEN {"shape"}
               ELSE Vec(out.value, e)
                    \cup If(\A r \in 1..N : \A z \in DOMAIN c.data : QClose(out.w[r][z], wt[c.rows[r]][z], tol), "weights")
                    \cup If(\A r \in 1..N : \A z \in near(c.rows[r]) : QClose(out.all[r][z], dv[c.rows[r]][z], tol) /\ SameBox(out.drule[r][z], dr[c.rows[r]][z]), "rows")
                    \cup If(\A r \in 1..N : \A z \in DOMAIN c.data \ near(c.rows[r]) : QEq(out.all[r][z], 0), "outside")
                    \* the maximal rule holds the sufficient rule, leaves the other columns free, and its sides come from sufficient rules
                    \cup If(\A r \in 1..N : Contains(out.rule[r], b[c.rows[r]]), "contains")
                    \cup If(\A r \in 1..N : \A j \in 1..c.m : j \notin S[c.rows[r]] => out.rule[r][j][1] = -Inf /\ out.rule[r][j][2] = Inf, "columns")
                    \cup If(\A r \in 1..N : LET i == c.rows[r] IN \A j \in 1..c.m : \A d \in {1, 2} :
                            out.rule[r][j][d] \in {b[i][j][d]} \cup {dr[i][z][j][d] : z \in {y \in near(i) : ~low(dv[i][y])}}, "sides")
                    \* whatever it holds besides is sufficient
                    \cup If(\A r \in 1..N : LET i == c.rows[r] IN \A z \in DOMAIN c.data :
                            InBox(out.rule[r], c.data[z]) /\ ~InBox(b[i], c.data[z]) => ~low(dv[i][z]), "sufficient")
                    \cup If(q.algo2 = 1 => \A r \in 1..N : LET i == c.rows[r] IN \A z \in DOMAIN q.probes :
                            InBox(out.rule[r], q.probes[z]) /\ ~InBox(b[i], q.probes[z]) => ~low(worth(i, q.probes[z])), "probes")
                    \cup If(q.algo2 = 1 => \A r \in 1..N : LET i == c.rows[r] IN
                            (\E z \in grown(i) : Extends(b[i], dr[i][z], S[i])) /\ ~unsure(i) => ~SameBox(out.rule[r], b[i]), "grows")
         IN Failing(k, q, Judge)
    [] q.f = "psearch" ->  \* ddp, cdp: the worth of a set is that of moving the other columns
         LET P_ == PlayerSeq(c.m, q, Space(c, q))
             L == TLCEval(Levels(P_, c.m, q.minimal, q.half = 1))
             Ts == UNION {L[l] : l \in DOMAIN L}
             W == TLCEval([i \in DOMAIN c.X |-> TLCEval([T \in Ts |->
                    IF T = 1..c.m THEN "1/1" ELSE Worth(c, q, i, IF q.flip = 1 THEN (1..c.m) \ T ELSE T)])])
             Judge(out) == Search(c, q, out, L, W, tol)
         IN Failing(k, q, Judge)
    [] q.f = "pall" ->  \* all the minimal sufficient sets. out: sets, sdps, glob
         LET P_ == PlayerSeq(c.m, q, Space(c, q))
             L == TLCEval(Levels(P_, c.m, q.minimal, FALSE))
             Ts == UNION {L[l] : l \in DOMAIN L}
             W == TLCEval([i \in DOMAIN c.X |-> TLCEval([T \in Ts |-> Worth(c, q, i, T)])])
             clear == TLCEval({i \in DOMAIN c.X : \A T \in Ts : ~QClose(W[i][T], q.pi, tol)})
             suff == TLCEval([i \in clear |-> TLCEval({T \in Ts : QLe(q.pi, W[i][T])})])
             least_ == TLCEval([i \in clear |-> TLCEval({T \in suff[i] : \A U \in suff[i] : U \subseteq T => U = T})])
             Judge(out) ==
               IF ~(Len(out.sets) = N /\ Len(out.sdps) = N /\ Len(out.glob) = c.m) THEN {"shape"}
               ELSE If(\A r \in 1..N : c.rows[r] \in clear =>
                         /\ {ToSet(out.sets[r][z]) : z \in DOMAIN out.sets[r]} = least_[c.rows[r]]
                         /\ Len(out.sets[r]) = Cardinality(least_[c.rows[r]]), "sets")
                    \cup If(\A r \in 1..N : Len(out.sdps[r]) = Len(out.sets[r]) /\
                         \A z \in DOMAIN out.sets[r] : ToSet(out.sets[r][z]) \in Ts => QClose(out.sdps[r][z], W[c.rows[r]][ToSet(out.sets[r][z])], tol), "sdp")
                    \cup LET K == QSum([r \in 1..N |-> Q(Len(out.sets[r]), 1)])
                             cnt(j) == QSum([r \in 1..N |-> Q(Cardinality({z \in DOMAIN out.sets[r] : j \in ToSet(out.sets[r][z])}), 1)])
                         IN If(QEq(K, 0) \/ \A j \in 1..c.m : QClose(out.glob[j], QDiv(cnt(j), K), tol), "global")
         IN Failing(k, q, Judge)
    [] q.f = "plocal" ->  \* the mean over the rows with sets of the share of their sets that hold each column
         LET have == {r \in DOMAIN q.sets : q.sets[r] # <<>>}
             share(r, j) == Q(Cardinality({z \in DOMAIN q.sets[r] : j \in ToSet(q.sets[r][z])}), Len(q.sets[r]))
             e == TLCEval([j \in 1..c.m |-> IF have = {} THEN "any"
                    ELSE QDiv(QSum([r \in DOMAIN q.sets |-> IF r \in have THEN share(r, j) ELSE "0/1"]), Cardinality(have))])
             Judge(out) == IF Len(out) # c.m THEN {"shape"} ELSE If(\A j \in 1..c.m : e[j] = "any" \/ QClose(out[j], e[j], tol), "value")
         IN Failing(k, q, Judge)

Failures(c) == UNION {Request(c, k) : k \in DOMAIN c.calls}

Init == n \in DOMAIN Cases /\ res = "recorded"
Next == /\ res = "recorded"
        /\ n' = n
        /\ LET f == Failures(Cases[n]) IN
             /\ res' = IF f = {} THEN "accepted" ELSE "rejected"
             /\ PrintT("VERDICT " \o ToString(n) \o " " \o ToString(f))
=============================================================================

------------------------------ MODULE TraceLeaf ------------------------------
(* Recorded calls of the leaf estimators, judged by LeafEst and Game. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, Game, LeafEst, RegEst, Swing, Marginal, SearchDef, TraceSearch, TraceBase
SX == INSTANCE SequencesExt
VARIABLES n, res

Labels(c) == IF "yp" \in DOMAIN c THEN ToSet(c.yp) \cup ToSet(c.fx) ELSE {1}
Label(c) == IF "yp" \in DOMAIN c THEN c.yp ELSE [i \in DOMAIN c.data |-> 1]
Prepared(c) == Prep(c.trees, c.m, c.data, Label(c), Labels(c))

\* c.rows: which of the distinct rows c.X each row of the call was (rows may repeat)
\* a table of attributions (rows, features, outputs) against the attribution phi of the players P(i) of row i
Attribution(c, out, P(_), d, phi, tol) ==
  IF ~IsCube(out, Len(c.rows), c.m, d) THEN {"shape"}
  ELSE If(\A r \in DOMAIN c.rows : LET i == c.rows[r] IN
            \A p \in P(i) : \A j \in p : \A o \in 1..d : QClose(out[r][j][o], phi[i][p][o], tol), "value")
       \cup If(\A r \in DOMAIN c.rows : LET i == c.rows[r] IN
            \A j \in (1..c.m) \ (UNION P(i)) : \A o \in 1..d : QClose(out[r][j][o], 0, tol), "inactive")

\* predictions of a regression ensemble, without offset
Predictions(trees, X) == TLCEval([i \in DOMAIN X |-> Predict(trees, X[i])[1]])
RegWorth(c, F, q, i, fx, near, xs, S, small) ==
  IF q.cat = 1 THEN SdpRegCat(F, c.data, near, c.X[i], xs, c.m, S, fx, small)
  ELSE SdpReg(F, c.data, near, xs, c.m, S, fx, small)

Request(c, F, k) ==
  LET q == c.calls[k]
      d == OutDim(F)
      tol == IF "tol" \in DOMAIN q THEN q.tol ELSE Tol
      small == IF "tol" \in DOMAIN q THEN QMul(q.tol, 10) ELSE "1/1000000"  \* below: references that coincide
      xst == TLCEval([i \in DOMAIN c.X |-> SatOf(F, c.X[i])])
      P == IF "C" \in DOMAIN q THEN PlayersOf(c.m, SetOfSets(q.C)) ELSE Singletons(1..c.m)
      S == IF "S" \in DOMAIN q THEN ToSet(q.S) ELSE {}
      Cols(out, e) == IF ~IsMat(out, Len(c.rows), d) THEN {"shape"}
                      ELSE If(\A r \in DOMAIN c.rows : \A o \in 1..d : QClose(out[r][o], e[c.rows[r]][o], tol), "value")
      Vec(out, e) == IF ~IsVec(out, Len(c.rows)) THEN {"shape"}
                     ELSE If(\A r \in DOMAIN c.rows : e[c.rows[r]] = "any" \/ QClose(out[r], e[c.rows[r]], tol), "value")
  IN
  CASE q.f = "shap" ->
         LET V == TLCEval([i \in DOMAIN c.X |-> LeafGame(F, xst[i], c.m, P)])
             phi == TLCEval([i \in DOMAIN c.X |-> TLCEval([p \in P |-> Shapley(V[i], P, p, d)])])
             All(i) == P
             Judge(out) == Attribution(c, out, All, d, phi, tol)
         IN Failing(k, q, Judge)
    [] q.f = "active" ->  \* one set of active and null features for all the rows
         LET Pa == {p \in P : p \subseteq ToSet(q.A)}
             V == TLCEval([i \in DOMAIN c.X |-> ActiveGame(F, xst[i], c.m, Pa, ToSet(q.N))])
             phi == TLCEval([i \in DOMAIN c.X |-> TLCEval([p \in Pa |-> Shapley(V[i], Pa, p, d)])])
             All(i) == Pa
             Judge(out) == Attribution(c, out, All, d, phi, tol)
         IN Failing(k, q, Judge)
    [] q.f = "split" ->  \* out: the columns of each row and the other ones
         LET Judge(out) ==
               IF Len(out.S) # Len(q.A) \/ Len(out.N) # Len(q.A) THEN {"shape"}
               ELSE If(\A i \in DOMAIN q.A : out.S[i] = q.A[i], "columns") \cup
                    If(\A i \in DOMAIN q.A : ToSet(out.N[i]) = (1..c.m) \ ToSet(q.A[i]) /\ Len(out.N[i]) = c.m - Len(q.A[i]), "others")
         IN Failing(k, q, Judge)
    [] q.f = "adaptive" ->  \* row i has its own active features q.A[i] and null features q.N[i]
         LET Pa(i) == {p \in P : p \subseteq ToSet(q.A[i])}
             Exp(i) == LET V == ActiveGame(F, xst[i], c.m, Pa(i), ToSet(q.N[i]))
                       IN TLCEval([p \in Pa(i) |-> Shapley(V, Pa(i), p, d)])
             phi == TLCEval([i \in DOMAIN c.X |-> Exp(i)])
             Judge(out) == Attribution(c, out, Pa, d, phi, tol)
         IN Failing(k, q, Judge)
    [] q.f = "shapnorm" ->
         LET phi == TLCEval([i \in DOMAIN c.X |-> TLCEval([p \in P |-> NormShapley(F, xst[i], c.m, P, p)])])
             All(i) == P
             Judge(out) == Attribution(c, out, All, d, phi, tol)
         IN Failing(k, q, Judge)
    [] q.f = "exp" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> LeafExp(F, xst[i], c.m, S)])
             Judge(out) == Cols(out, e) IN Failing(k, q, Judge)
    [] q.f = "expnorm" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> NormExp(F, xst[i], c.m, S)])
             Judge(out) == Cols(out, e) IN Failing(k, q, Judge)
    [] q.f = "expcat" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> CatExp(F, c.data, c.X[i], c.m, S)])
             Judge(out) == Cols(out, e) IN Failing(k, q, Judge)
    [] q.f = "sdp" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> SdpClf(F, xst[i], c.m, S, c.fx[i], small)])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "sdpcat" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> SdpCat(F, c.data, c.yp, c.X[i], c.m, S, c.fx[i], small)])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "regsdp" ->  \* cat = 1: the discrete variant
         LET fx == Predictions(c.trees, c.X)
             near == TLCEval([i \in DOMAIN c.X |-> NearRows(fx[i], Predictions(c.trees, c.data), q.tX)])
             e == TLCEval([i \in DOMAIN c.X |-> RegWorth(c, F, q, i, fx[i], near[i], xst[i], S, q.small)])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "regsearch" ->
         LET fx == Predictions(c.trees, c.X)
             near == TLCEval([i \in DOMAIN c.X |-> NearRows(fx[i], Predictions(c.trees, c.data), q.tX)])
             P_ == PlayerSeq(c.m, q, [j \in 1..c.m |-> j])
             L == TLCEval(Levels(P_, c.m, q.minimal, q.half = 1))
             Ts == UNION {L[l] : l \in DOMAIN L}
             W == TLCEval([i \in DOMAIN c.X |-> TLCEval([T \in Ts |->
                    IF T = 1..c.m THEN "1/1" ELSE RegWorth(c, F, q, i, fx[i], near[i], xst[i], T, q.small)])])
             Judge(out) == Search(c, q, out, L, W, tol)
         IN Failing(k, q, Judge)
    [] q.f = "swing" ->  \* sum = 1: with the sums of shares that are not normalized
         LET Worth(i, T) == IF q.sum = 1 THEN SdpSum(F, xst[i], c.m, UNION T, c.fx[i], small)
                            ELSE SdpClf(F, xst[i], c.m, UNION T, c.fx[i], small)
             W == TLCEval([i \in DOMAIN c.X |-> TLCEval([T \in SUBSET P |-> TLCEval(Worth(i, T))])])
             clear == TLCEval({i \in DOMAIN c.X : \A T \in SUBSET P : W[i][T] # "any" /\ ~QClose(W[i][T], q.pi, tol)})
             e == TLCEval([i \in clear |-> LET win == TLCEval({T \in SUBSET P : QLe(q.pi, W[i][T])}) IN
                              TLCEval([p \in P |-> SwingRecord(win, P, p)])])
             Judge(out) ==
               IF ~(IsMat(out.phi, Len(c.rows), c.m) /\ IsCube(out.swings, Len(c.rows), c.m, 2) /\ IsCube(out.prop, Len(c.rows), c.m, 3)) THEN {"shape"}
               ELSE LET All(Ok(_, _, _)) == \A r \in DOMAIN c.rows : c.rows[r] \in clear =>
                                             \A p \in P : \A j \in p : Ok(r, j, e[c.rows[r]][p])
                    IN  If(All(LAMBDA r, j, x : QClose(out.phi[r][j], x.phi, tol)), "phi")
                        \cup If(All(LAMBDA r, j, x : QClose(out.swings[r][j][1], x.up, tol) /\ QClose(out.swings[r][j][2], x.down, tol)), "swings")
                        \cup If(All(LAMBDA r, j, x : \A z \in 1..3 : QEq(out.prop[r][j][z], x.n[z])), "counts")
         IN Failing(k, q, Judge)
    [] q.f = "msdp" ->
         LET e == TLCEval([i \in DOMAIN c.X |-> Msdp(c.trees, c.data, c.X[i], S, q.band)])
             Judge(out) == Vec(out, e) IN Failing(k, q, Judge)
    [] q.f = "msdpsearch" ->
         LET P_ == PlayerSeq(c.m, q, IF "space" \in DOMAIN q THEN q.space ELSE [j \in 1..c.m |-> j])
             L == TLCEval(Levels(P_, c.m + 1, q.minimal, q.half = 1))  \* half the columns, rounded up
             Ts == UNION {L[l] : l \in DOMAIN L}
             W == TLCEval([i \in DOMAIN c.X |-> TLCEval([T \in Ts |-> Msdp(c.trees, c.data, c.X[i], T, q.band)])])
             Judge(out) == Search(c, q, out, L, W, tol)
         IN Failing(k, q, Judge)
    [] q.f = "search" ->
         LET space == IF "space" \in DOMAIN q THEN q.space
                      ELSE IF c.m > 10 THEN SX!SetToSeq(MostUsed(F, c.m, 10)) ELSE [j \in 1..c.m |-> j]
             P_ == PlayerSeq(c.m, q, space)
             L == TLCEval(Levels(P_, c.m, q.minimal, q.half = 1))
             Ts == UNION {L[l] : l \in DOMAIN L}
             W == TLCEval([i \in DOMAIN c.X |-> TLCEval([T \in Ts |->
                    IF q.sum = 1 THEN SdpSumSearch(F, xst[i], c.m, T, c.fx[i], small) ELSE SdpSearch(F, xst[i], c.m, T, c.fx[i], small)])])
             Judge(out) == Search(c, q, out, L, W, tol)
         IN Failing(k, q, Judge)
    [] q.f = "missing" ->
         LET e == TLCEval([i \in DOMAIN q.X |-> LET v == PredictDefault(c.trees, q.X[i]) IN [o \in 1..d |-> QAdd(v[o], c.offset[o])]])
             Judge(out) == Cols(out, e) IN Failing(k, q, Judge)
    [] q.f = "predict" ->
         LET Limited == IF "limit" \in DOMAIN q THEN SubSeq(c.trees, 1, q.limit) ELSE c.trees
             e == TLCEval([i \in DOMAIN c.X |-> LET v == Predict(Limited, c.X[i]) IN [o \in 1..d |-> QAdd(v[o], c.offset[o])]])
             Judge(out) == Cols(out, e) IN Failing(k, q, Judge)

Failures(c) == LET F == Prepared(c) IN UNION {Request(c, F, k) : k \in DOMAIN c.calls}

Init == n \in DOMAIN Cases /\ res = "recorded"
Next == /\ res = "recorded"
        /\ n' = n
        /\ LET f == Failures(Cases[n]) IN
             /\ res' = IF f = {} THEN "accepted" ELSE "rejected"
             /\ PrintT("VERDICT " \o ToString(n) \o " " \o ToString(f))
=============================================================================

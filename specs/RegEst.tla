------------------------------- MODULE RegEst -------------------------------
(***************************************************************************)
(* The Same Decision Probability in regression: how far the expected       *)
(* squared distance to the prediction of x, given x_S, lies from its       *)
(* expectation over the background rows predicted far from x (farther than *)
(* the square root of tX) towards its expectation over the others.         *)
(*                                                                         *)
(* The square of the forest is the sum over ordered pairs of trees; an own *)
(* term weighs the leaves of one tree by their shares, a cross term weighs *)
(* the leaves of a second tree inside each leaf of the first.  The square  *)
(* of the prediction itself, common to the three expectations, is left out.*)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE Forest
LOCAL INSTANCE Game
LOCAL INSTANCE LeafEst

\* for each tree b and l, leaf q and r: the background rows inside both leaves (b = l: q = r only), on all columns
\* near[i]: the background rows predicted within the distance of row i
Rows(k, data, near) == CASE k = "a" -> DOMAIN data [] k = "u" -> (DOMAIN data) \ near [] k = "d" -> near

Num(F, R, m, b, q) == Cardinality({i \in R : F[b][q].sat[i] = 1..m})
Den(F, R, S, b, q) == Cardinality({i \in R : S \subseteq F[b][q].sat[i]})
Num2(F, R, m, b, q, l, r) == Cardinality({i \in R : F[b][q].sat[i] = 1..m /\ F[l][r].sat[i] = 1..m})
Den2(F, R, S, b, q, l, r) == Cardinality({i \in R : S \subseteq F[b][q].sat[i] /\ S \subseteq F[l][r].sat[i]})

Own(F, R, xs, m, S, b) == [q \in DOMAIN F[b] |-> IF S \subseteq xs[b][q] THEN Ratio(Num(F, R, m, b, q), Den(F, R, S, b, q)) ELSE "0/1"]
Pair(F, R, xs, m, S, b, q, l) ==
  [r \in DOMAIN F[l] |-> IF S \subseteq xs[b][q] /\ S \subseteq xs[l][r] THEN Ratio(Num2(F, R, m, b, q, l, r), Den2(F, R, S, b, q, l, r)) ELSE "0/1"]
Val(F, b, q) == F[b][q].val[1]
Dist(v, fx) == QSub(QMul(v, v), QMul(QMul(2, fx), v))
Mean(w, v) == LET n == QSum(w) IN IF QEq(n, 0) THEN "0/1" ELSE QDiv(QDot(w, v), n)

\* E[(f - fx)^2] - fx^2 over the rows R
Moment(F, R, xs, m, S, fx) ==
  LET own == TLCEval([b \in DOMAIN F |-> TLCEval(Scaled(TLCEval(Own(F, R, xs, m, S, b))))])
      vals == TLCEval([b \in DOMAIN F |-> TLCEval([q \in DOMAIN F[b] |-> Val(F, b, q)])])
      dist == TLCEval([b \in DOMAIN F |-> TLCEval([q \in DOMAIN F[b] |-> Dist(Val(F, b, q), fx)])])
      Cross(b, l) == TLCEval(QSum(TLCEval([q \in DOMAIN F[b] |->
                       IF QEq(own[b][q], 0) THEN "0/1"
                       ELSE QMul(QMul(own[b][q], vals[b][q]), Mean(TLCEval(Pair(F, R, xs, m, S, b, q, l)), vals[l]))])))
  IN  QSum([b \in DOMAIN F |-> QSum([l \in DOMAIN F |-> IF b = l THEN QDot(own[b], dist[b]) ELSE Cross(b, l)])])

\* the same, conditioning on equality with x on S among the leaves compatible with x on S, without normalisation
MomentCat(F, R0, data, x, xs, m, S, fx) ==
  LET R == TLCEval(EqRows(data, x, S) \cap R0)
      nr == Cardinality(R)
      one(b, q) == IF S \subseteq xs[b][q] THEN QMul(Ratio(Num(F, R, m, b, q), nr), Dist(Val(F, b, q), fx)) ELSE "0/1"
      two(b, q, l, r) == IF S \subseteq xs[b][q] /\ S \subseteq xs[l][r]
                         THEN QMul(Ratio(Num2(F, R, m, b, q, l, r), nr), QMul(Val(F, b, q), Val(F, l, r))) ELSE "0/1"
  IN  QSum([b \in DOMAIN F |-> QSum([l \in DOMAIN F |->
        IF b = l THEN QSum([q \in DOMAIN F[b] |-> one(b, q)])
        ELSE QSum([q \in DOMAIN F[b] |-> QSum([r \in DOMAIN F[l] |-> two(b, q, l, r)])])])])

NearRows(fx, yp, tX) == {j \in DOMAIN yp : ~QLt(tX, QMul(QSub(fx, yp[j]), QSub(fx, yp[j])))}
\* "any": both references coincide up to rounding
Where(a, u, d, small) ==
  IF QLt(QSub(u, d), small) /\ QLt(QSub(d, u), small) THEN "any" ELSE QDiv(QSub(u, a), QSub(u, d))

SdpReg(F, data, near, xs, m, S, fx, small) ==
  LET M(k) == Moment(F, TLCEval(Rows(k, data, near)), xs, m, S, fx)
  IN  Where(M("a"), M("u"), M("d"), small)
SdpRegCat(F, data, near, x, xs, m, S, fx, small) ==
  LET M(k) == MomentCat(F, TLCEval(Rows(k, data, near)), data, x, xs, m, S, fx)
  IN  Where(M("a"), M("u"), M("d"), small)
=============================================================================

------------------------------ MODULE LeafEst -------------------------------
(***************************************************************************)
(* The leaf estimators of a tree ensemble: conditional expectations, the   *)
(* games they induce, and Same Decision Probabilities.                     *)
(*                                                                         *)
(* Everything is a ratio of counts of background rows.  A leaf counts for  *)
(* x and the features S when x satisfies the box of the leaf on S; its     *)
(* share is then the fraction of the background rows satisfying the box on *)
(* S that satisfy all of it.                                               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE Forest
LOCAL INSTANCE Game

(***************************************************************************)
(* A model prepared for counting: for each tree and leaf, the output, the  *)
(* features tested, and the number of background rows that satisfy the box *)
(* on S, for each S, overall and for each class label of the rows.         *)
(***************************************************************************)
Prep(trees, m, data, label, labels) ==
  TLCEval([k \in DOMAIN trees |->
    LET ls == Leaves(trees[k], m) IN
    TLCEval([q \in DOMAIN ls |->
      LET sat == TLCEval([i \in DOMAIN data |-> Sat(ls[q].box, data[i])]) IN
      [val |-> trees[k].v[ls[q].node], box |-> ls[q].box, used |-> Used(ls[q].box), sat |-> sat,
       all |-> TLCEval([S \in SUBSET Used(ls[q].box) |-> Cardinality({i \in DOMAIN data : S \subseteq sat[i]})]),
       by  |-> TLCEval([c \in labels |-> TLCEval([S \in SUBSET Used(ls[q].box) |->
                  Cardinality({i \in DOMAIN data : label[i] = c /\ S \subseteq sat[i]})])])]])])
\* number of background rows (with label c) that satisfy the box of the leaf on S: only the tested features matter
Count(L, S) == L.all[S \cap L.used]
CountBy(L, c, S) == L.by[c][S \cap L.used]

\* the features of x satisfied in each leaf
SatOf(F, x) == TLCEval([k \in DOMAIN F |-> TLCEval([q \in DOMAIN F[k] |-> Sat(F[k][q].box, x)])])

Ratio(a, b) == IF b = 0 THEN "0/1" ELSE Q(a, b)
Share(L, xs, m, S) == IF S \subseteq xs THEN Ratio(Count(L, 1..m), Count(L, S)) ELSE "0/1"

\* all the leaves of a prepared model, one after the other
OutDim(F) == Len(F[1][1].val)
SumOver(F, w, o) == QSum([k \in DOMAIN F |-> QDot(w[k], [q \in DOMAIN F[k] |-> F[k][q].val[o]])])

\* the leaf estimator of the conditional expectation E[f | X_S = x_S]
Shares(F, xst, m, S) == [k \in DOMAIN F |-> [q \in DOMAIN F[k] |-> Share(F[k][q], xst[k][q], m, S)]]
LeafExp(F, xst, m, S) ==
  LET w == TLCEval(Shares(F, xst, m, S)) IN [o \in 1..OutDim(F) |-> SumOver(F, w, o)]

\* the same with the shares of each tree divided by their sum
Scaled(w) == LET n == QSum(w) IN [q \in DOMAIN w |-> IF QEq(n, 0) THEN "0/1" ELSE QDiv(w[q], n)]
NormExp(F, xst, m, S) ==
  LET w == TLCEval([k \in DOMAIN F |-> Scaled(TLCEval(Shares(F, xst, m, S)[k]))])
  IN  [o \in 1..OutDim(F) |-> SumOver(F, w, o)]

\* the discrete estimator: condition on equality with x on S
EqRows(data, x, S) == {i \in DOMAIN data : \A j \in S : data[i][j] = x[j]}
CatExp(F, data, x, m, S) ==
  LET rows == TLCEval(EqRows(data, x, S))
      w == TLCEval([k \in DOMAIN F |-> [q \in DOMAIN F[k] |->
              Ratio(Cardinality({i \in rows : F[k][q].sat[i] = 1..m}), Cardinality(rows))]])
  IN  [o \in 1..OutDim(F) |-> SumOver(F, w, o)]

\* how many leaves test feature j; the columns tested most (n of them at most)
Uses(F, j) == Cardinality({<<k, q>> \in (DOMAIN F) \X (1..100) : q \in DOMAIN F[k] /\ j \in F[k][q].used})
MostUsed(F, m, n) == LET u == TLCEval([j \in 1..m |-> Uses(F, j)]) IN
  {j \in 1..m : u[j] > 0 /\ Cardinality({i \in 1..m : u[i] > u[j]}) < n}

(***************************************************************************)
(* Games.  The worth of a coalition of players is the conditional          *)
(* expectation given all their features.                                   *)
(***************************************************************************)
LeafGame(F, xst, m, P) == TLCEval([T \in SUBSET P |-> LeafExp(F, xst, m, UNION T)])

\* Active game: the null features Nul are known as soon as any player is
ActiveGame(F, xst, m, P, Nul) ==
  TLCEval([T \in SUBSET P |-> LeafExp(F, xst, m, IF T = {} THEN {} ELSE (UNION T) \cup Nul)])

(***************************************************************************)
(* Normalized leaf game: leaf L of a tree is worth, to a coalition, its    *)
(* share divided by the sum of the shares of the leaves of its tree, the   *)
(* coalition being known only by its players that are tested on the way to *)
(* L; with no such player, the fraction of the background rows in L.       *)
(***************************************************************************)
Touching(P, L) == {p \in P : p \cap L.used # {}}
LeafNormWorth(tree, q, xs, m, T) ==
  LET S == UNION T
      w == TLCEval([r \in DOMAIN tree |-> Share(tree[r], xs[r], m, S)])
      n == QSum(w)
  IN  IF T = {} THEN Ratio(Count(tree[q], 1..m), Count(tree[q], {}))
      ELSE IF QEq(w[q], 0) THEN "0/1" ELSE QDiv(w[q], n)
\* contribution of player p through leaf q of the tree
LeafNormShapley(tree, q, xs, m, P, p) ==
  LET Pl == Touching(P, tree[q]) IN
  IF p \notin Pl THEN "0/1"
  ELSE LET V == TLCEval([T \in SUBSET Pl |-> <<LeafNormWorth(tree, q, xs, m, T)>>]) IN Shapley(V, Pl, p, 1)[1]
NormShapley(F, xst, m, P, p) ==
  LET w == TLCEval([k \in DOMAIN F |-> [q \in DOMAIN F[k] |-> LeafNormShapley(F[k], q, xst[k], m, P, p)]])
  IN  [o \in 1..OutDim(F) |-> SumOver(F, w, o)]

(***************************************************************************)
(* Same Decision Probability of a classifier: how far the expected output  *)
(* of the class of x given x_S lies from its expectation over the rows of  *)
(* other classes towards its expectation over the rows of the same class.  *)
(* kind: "a" all rows, "u" rows of the class c of x, "d" the others.       *)
(***************************************************************************)
KindCount(L, S, c, kind) ==
  CASE kind = "a" -> Count(L, S) [] kind = "u" -> CountBy(L, c, S) [] kind = "d" -> Count(L, S) - CountBy(L, c, S)
KindShares(F, xst, m, S, c, kind) ==
  [k \in DOMAIN F |-> [q \in DOMAIN F[k] |->
     IF S \subseteq xst[k][q] THEN Ratio(KindCount(F[k][q], 1..m, c, kind), KindCount(F[k][q], S, c, kind)) ELSE "0/1"]]
\* normalized tree by tree
KindMean(F, xst, m, S, c, kind) ==
  LET w == TLCEval(KindShares(F, xst, m, S, c, kind)) IN SumOver(F, TLCEval([k \in DOMAIN F |-> Scaled(w[k])]), c)
\* not normalized
KindSum(F, xst, m, S, c, kind) == SumOver(F, TLCEval(KindShares(F, xst, m, S, c, kind)), c)
KindCat(F, data, label, x, m, S, c, kind) ==
  LET rows == TLCEval({i \in EqRows(data, x, S) : kind = "a" \/ (kind = "u") = (label[i] = c)})
      w == TLCEval([k \in DOMAIN F |-> [q \in DOMAIN F[k] |->
              Ratio(Cardinality({i \in rows : F[k][q].sat[i] = 1..m}), Cardinality(rows))]])
  IN  SumOver(F, w, c)

\* "any": both references coincide (up to rounding) and the quotient means nothing
Position(a, u, d, small) ==
  IF QEq(u, 0) /\ QEq(d, 0) THEN "0/1"
  ELSE IF QLt(QSub(u, d), small) /\ QLt(QSub(d, u), small) THEN "any"
  ELSE QDiv(QSub(a, d), QSub(u, d))
Clip(q) == IF q = "any" THEN q ELSE IF QLt(q, 0) THEN "0/1" ELSE IF QLt(1, q) THEN "1/1" ELSE q

SdpClf(F, xst, m, S, c, small) ==
  IF S = 1..m THEN "1/1" ELSE IF S = {} THEN "0/1"
  ELSE Position(KindMean(F, xst, m, S, c, "a"), KindMean(F, xst, m, S, c, "u"), KindMean(F, xst, m, S, c, "d"), small)
\* in a search, where the empty set is a coalition like another
SdpSearch(F, xst, m, S, c, small) ==
  IF S = 1..m THEN "1/1"
  ELSE Position(KindMean(F, xst, m, S, c, "a"), KindMean(F, xst, m, S, c, "u"), KindMean(F, xst, m, S, c, "d"), small)
SdpSumSearch(F, xst, m, S, c, small) ==
  IF S = 1..m THEN "1/1"
  ELSE Position(KindSum(F, xst, m, S, c, "a"), KindSum(F, xst, m, S, c, "u"), KindSum(F, xst, m, S, c, "d"), small)
SdpSum(F, xst, m, S, c, small) ==
  IF S = 1..m THEN "1/1" ELSE IF S = {} THEN "0/1"
  ELSE Position(KindSum(F, xst, m, S, c, "a"), KindSum(F, xst, m, S, c, "u"), KindSum(F, xst, m, S, c, "d"), small)
SdpCat(F, data, label, x, m, S, c, small) ==
  IF S = 1..m THEN "1/1" ELSE IF S = {} THEN "0/1"
  ELSE Clip(Position(KindCat(F, data, label, x, m, S, c, "a"), KindCat(F, data, label, x, m, S, c, "u"),
                     KindCat(F, data, label, x, m, S, c, "d"), small))
=============================================================================

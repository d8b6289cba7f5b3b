------------------------------- MODULE MC_Est -------------------------------
(* Two trees over two columns with every small background: the estimators against plain means over the rows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, Game, LeafEst
CONSTANTS Size, Depth
VARIABLES trees, data, x

Re == INSTANCE RegEst
Ma == INSTANCE Marginal
m == 2
Splits == (1..m) \X {0, 1}
None == <<0, 0>>
TreeOf(a, b, u) ==
  [l |-> <<2, IF b = None THEN 0 ELSE 4, 0, 0, 0>>, r |-> <<3, IF b = None THEN 0 ELSE 5, 0, 0, 0>>,
   f |-> <<a[1], b[1], 0, 0, 0>>, t |-> <<a[2], b[2], 0, 0, 0>>,
   v |-> [k \in 1..5 |-> <<Q(<<0, u, u + 3, u + 1, u + 7>>[k], 2)>>]]
Points == <<<<0, 0>>, <<1, 1>>, <<2, 0>>, <<0, 2>>>>
Subs == IF Depth = 1 THEN {None} ELSE Splits \cup {None}

Init == trees = <<>> /\ data = <<>> /\ x = <<>>
Next == \/ /\ trees = <<>>
           /\ \E a \in Splits, b \in Splits \cup {None}, c \in Splits, d \in Subs : trees' = <<TreeOf(a, b, 0), TreeOf(c, d, 4)>>
           /\ UNCHANGED <<data, x>>
        \/ /\ trees # <<>> /\ x = <<>>
           /\ \E pick \in {w \in [1..Size -> 1..4] : \A i \in 2..Size : w[i - 1] <= w[i]} : data' = [i \in 1..Size |-> Points[pick[i]]]
           /\ x' \in {<<0, 2>>, <<1, 0>>, <<0, 0>>}
           /\ UNCHANGED trees

Ready == x # <<>>
Sets == SUBSET (1..m)
Out(z) == Predict(trees, z)[1]
MeanOf(R, G(_)) == IF R = {} THEN "0/1" ELSE QMul(Q(1, Cardinality(R)), QSum([i \in DOMAIN data |-> IF i \in R THEN G(data[i]) ELSE "0/1"]))
label == [i \in DOMAIN data |-> data[i][2]]
F == Prep(trees, m, data, label, 0..2)
xst == SatOf(F, x)
fx == Out(x)
tX == "9/4"
yp == [i \in DOMAIN data |-> Out(data[i])]
near == Re!NearRows(fx, yp, tX)
Gap(z) == QSub(QMul(Out(z), Out(z)), QMul(QMul(2, fx), Out(z)))
Apart(R, G(_), e) == R = {} \/ QEq(MeanOf(R, G), e)

\* the discrete estimator is the mean prediction of the rows equal to x on S
Discrete == Ready => \A S \in Sets : Apart(EqRows(data, x, S), Out, CatExp(F, data, x, m, S)[1])
\* with nothing known, every estimator is the mean over the background; with everything known, what the leaf of x holds
Nothing == Ready => /\ Apart(DOMAIN data, Out, LeafExp(F, xst, m, {})[1])
                    /\ Apart(DOMAIN data, Out, NormExp(F, xst, m, {})[1])
                    /\ \A c \in 0..2 : \A k \in {"a", "u", "d"} :
                         KindCat(F, data, label, x, m, {}, 1, k) = KindCat(F, data, label, data[1], m, {}, 1, k)
Everything == Ready /\ (\E i \in DOMAIN data : data[i] = x) => /\ QEq(LeafExp(F, xst, m, 1..m)[1], fx)
                                                              /\ QEq(NormExp(F, xst, m, 1..m)[1], fx)
                                                              /\ QEq(CatExp(F, data, x, m, 1..m)[1], fx)
\* normalized estimates are convex: for each tree they lie between the outputs of its leaves
Convex == Ready => \A S \in Sets : \A c \in 0..2, k \in {"a", "u", "d"} : \A b \in DOMAIN F :
            LET w == Scaled(KindShares(F, xst, m, S, c, k)[b]) IN
            /\ \A q \in DOMAIN w : QLe(0, w[q])
            /\ LET s == QSum(w) IN QEq(s, 1) \/ QEq(s, 0)
\* the kinds split the background
KindsSplit == Ready => \A S \in Sets, c \in 0..2 : \A b \in DOMAIN F : \A q \in DOMAIN F[b] :
            KindCount(F[b][q], S, c, "a") = KindCount(F[b][q], S, c, "u") + KindCount(F[b][q], S, c, "d")
\* the ends of the scale, and a clipped scale
Scale == Ready => \A c \in 0..2 : /\ SdpClf(F, xst, m, 1..m, 1, "1/1000") = "1/1" /\ SdpClf(F, xst, m, {}, 1, "1/1000") = "0/1"
            /\ \A S \in Sets : LET p == SdpCat(F, data, label, x, m, S, 1, "1/1000") IN p = "any" \/ (QLe(0, p) /\ QLe(p, 1))
\* expanding the square over pairs of trees is the mean squared distance
Square == Ready => \A k \in {"a", "u", "d"} :
            LET R == Re!Rows(k, data, near) IN
            /\ Apart(R, Gap, Re!Moment(F, R, xst, m, {}, fx))
            /\ \A S \in Sets : Apart(EqRows(data, x, S) \cap R, Gap, Re!MomentCat(F, R, data, x, xst, m, S, fx))
\* the marginal estimate counts rows; a wider band never lowers it; a row like x on the other columns keeps the decision
Counts == Ready => \A S \in Sets : LET p == Ma!Msdp(trees, data, x, S, 0) IN
            /\ QLe(0, p) /\ QLe(p, 1) /\ QLe(p, Ma!Msdp(trees, data, x, S, 1))
            /\ QLe(Q(Cardinality({i \in DOMAIN data : \A j \in (1..m) \ S : data[i][j] = x[j]}), Len(data)), p)
            /\ (S = 1..m => QEq(p, 1))
=============================================================================

------------------------------- MODULE MC_Game ------------------------------
(* Every tree of depth two over three columns with every small background: the leaf games and their Shapley values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, Game, LeafEst, SequencesExt
CONSTANTS Rows, Cols
VARIABLES tree, data, x

m == Cols
Splits == (1..m) \X {0, 1}
None == <<0, 0>>
Vals == <<"0/1", "0/1", "0/1", "1/1", "3/1", "9/1", "27/1">>
\* a root split and at most one split below each side; a side that is a leaf has a value of its own
TreeOf(a, b, c) ==
  [l |-> <<2, IF b = None THEN 0 ELSE 4, IF c = None THEN 0 ELSE 6, 0, 0, 0, 0>>,
   r |-> <<3, IF b = None THEN 0 ELSE 5, IF c = None THEN 0 ELSE 7, 0, 0, 0, 0>>,
   f |-> <<a[1], b[1], c[1], 0, 0, 0, 0>>, t |-> <<a[2], b[2], c[2], 0, 0, 0, 0>>,
   v |-> [k \in 1..7 |-> <<CASE k = 2 -> "2/1" [] k = 3 -> "5/1" [] OTHER -> Vals[k]>>]]
Row(a, b, c) == [j \in 1..m |-> <<a, b, c>>[j]]
Points == <<Row(0, 0, 0), Row(1, 1, 0), Row(2, 0, 1), Row(0, 2, 2), Row(1, 0, 1)>>

Init == tree = <<>> /\ data = <<>> /\ x = <<>>
\* the tree first, then the rest, so that the work spreads over the workers
Next == \/ /\ tree = <<>>
           /\ \E a \in Splits, b \in Splits \cup {None}, c \in Splits \cup {None} : tree' = TreeOf(a, b, c)
           /\ UNCHANGED <<data, x>>
        \/ /\ tree # <<>> /\ x = <<>>
           /\ \E pick \in {w \in [1..Rows -> 1..5] : \A i \in 2..Rows : w[i - 1] <= w[i]} : data' = [i \in 1..Rows |-> Points[pick[i]]]
           /\ x' \in {Row(0, 2, 1), Row(1, 0, 0), Row(2, 1, 2)}
           /\ UNCHANGED tree

Ready == x # <<>>
F == Prep(<<tree>>, m, data, [i \in DOMAIN data |-> 1], {1})
xst == SatOf(F, x)
P == Singletons(1..m)
V == LeafGame(F, xst, m, P)
Phi(p) == Shapley(V, P, p, 1)[1]
Total(G, Pl) == QSum(LET s == SetToSeq(Pl) IN [k \in DOMAIN s |-> Shapley(G, Pl, s[k], 1)[1]])
Out(z) == Predict(<<tree>>, z)[1]
Populated == \E i \in DOMAIN data : Route(tree, 1, data[i]) = Route(tree, 1, x)

\* the closed form and the definition by orders agree
ByOrders == Ready => \A p \in P : QEq(Phi(p), ShapleyByOrders(V, P, p, 1)[1])
\* the values share out the distance between the mean prediction and the prediction at x
Efficiency == Ready => /\ QEq(Total(V, P), QSub(V[P][1], V[{}][1]))
                       /\ QEq(V[{}][1], QMul(Q(1, Len(data)), QSum([i \in DOMAIN data |-> Out(data[i])])))
                       /\ (Populated => QEq(V[P][1], Out(x))) /\ (~Populated => QEq(V[P][1], 0))
\* a column that no node tests is worth nothing; neither is one that no reachable node tests differently
Dummy == Ready => \A j \in 1..m : (\A q \in DOMAIN F[1] : j \notin F[1][q].used) => QEq(Phi({j}), 0)
\* each leaf by itself, with the players that it tests only
LeafWorth(L, xs, T) == <<QMul(L.val[1], Share(L, xs, m, UNION T))>>
ByLeaf(p, Pl) == QSum([q \in DOMAIN F[1] |->
  LET Tp == Touching(Pl, F[1][q]) IN
  IF p \notin Tp THEN "0/1" ELSE Shapley(TLCEval([T \in SUBSET Tp |-> LeafWorth(F[1][q], xst[1][q], T)]), Tp, p, 1)[1]])
LeafWise == Ready => \A p \in P : QEq(Phi(p), ByLeaf(p, P))
\* groups of columns are players like others
GroupSets == IF m = 2 THEN {{{1, 2}}} ELSE {{{1, 2}}, {{2, 3}}, {{1, 3}}, {{1, 2, 3}}}
Grouped == Ready => \A C \in GroupSets : LET Pl == PlayersOf(m, C)
                                             G == LeafGame(F, xst, m, Pl) IN
             /\ QEq(Total(G, Pl), Total(V, P))
             /\ \A p \in Pl : QEq(Shapley(G, Pl, p, 1)[1], ByLeaf(p, Pl))
\* knowing no null feature changes nothing; null features are shared out with the active ones
Active == Ready => /\ ActiveGame(F, xst, m, P, {}) = V
                   /\ \A Nul \in SUBSET (1..m) : Nul # 1..m =>
                        LET A == Singletons((1..m) \ Nul) IN
                        QEq(Total(ActiveGame(F, xst, m, A, Nul), A), QSub(V[P][1], V[{}][1]))
\* the shares of the leaves compatible with x never exceed one, and are one or nothing when everything is known
Shared == Ready => \A S \in SUBSET (1..m) : LET w == QSum(Shares(F, xst, m, S)[1]) IN
            /\ QLe(0, w) /\ (S = {} => QEq(w, 1)) /\ (S = 1..m => QEq(w, IF Populated THEN 1 ELSE 0))
\* normalized: the estimate is a mean of outputs of leaves
Mean == Ready => \A S \in SUBSET (1..m) : LET e == NormExp(F, xst, m, S)[1] IN
          /\ (S = {} => QEq(e, V[{}][1]))
          /\ (S = 1..m => QEq(e, V[P][1]))
=============================================================================

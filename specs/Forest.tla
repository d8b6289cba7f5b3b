------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Tree ensembles.                                                         *)
(*                                                                         *)
(* A tree is a record                                                      *)
(*   l, r : left and right child of each node (0: the node is a leaf)      *)
(*   f    : feature tested by each node, 1..m                              *)
(*   t    : threshold of each node                                         *)
(*   v    : output vector (rationals) of each node                         *)
(* with root 1.  Feature values and thresholds are integers that order the *)
(* real numbers of a case feature by feature (the harness ranks them), so  *)
(* comparisons mean exactly what they mean on the original numbers.        *)
(* A node sends x to its left child iff x[f] <= t.                         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat

Inf == 1000000000
Whole(m) == [j \in 1..m |-> <<-Inf, Inf>>]

IsLeaf(T, n) == T.l[n] = 0
GoesLeft(T, n, x) == x[T.f[n]] <= T.t[n]
Child(T, n, x) == IF GoesLeft(T, n, x) THEN T.l[n] ELSE T.r[n]

\* The leaf reached by x below node n (n = 1: in the tree)
RECURSIVE Route(_, _, _)
Route(T, n, x) == IF IsLeaf(T, n) THEN n ELSE Route(T, Child(T, n, x), x)

LOCAL Min(a, b) == IF a <= b THEN a ELSE b
LOCAL Max(a, b) == IF a >= b THEN a ELSE b
CutLeft(box, j, thr)  == [box EXCEPT ![j] = <<box[j][1], Min(box[j][2], thr)>>]
CutRight(box, j, thr) == [box EXCEPT ![j] = <<Max(box[j][1], thr), box[j][2]>>]

\* The leaves below node n: each with the box (lower, upper] of the inputs it receives
RECURSIVE LeavesBelow(_, _, _)
LeavesBelow(T, n, box) ==
  IF IsLeaf(T, n) THEN <<[node |-> n, box |-> box]>>
  ELSE LeavesBelow(T, T.l[n], CutLeft(box, T.f[n], T.t[n])) \o
       LeavesBelow(T, T.r[n], CutRight(box, T.f[n], T.t[n]))
Leaves(T, m) == LeavesBelow(T, 1, Whole(m))

InInterval(iv, z) == iv[1] < z /\ z <= iv[2]
\* With missing values (Missing): a node whose feature is missing sends x to its default child d
Missing == 2000000000
RECURSIVE RouteDefault(_, _, _)
RouteDefault(T, n, x) == IF IsLeaf(T, n) THEN n ELSE RouteDefault(T, IF x[T.f[n]] = Missing THEN T.d[n] ELSE Child(T, n, x), x)
\* the features on which z satisfies the box
Sat(box, z) == {j \in DOMAIN box : InInterval(box[j], z[j])}
InBox(box, z) == \A j \in DOMAIN box : InInterval(box[j], z[j])
InClosedBox(box, z) == \A j \in DOMAIN box : box[j][1] <= z[j] /\ z[j] <= box[j][2]
\* the features tested on the way to the leaf
Used(box) == {j \in DOMAIN box : box[j] # <<-Inf, Inf>>}

\* prediction: the sum over the trees of the output of the leaf reached
OutputDim(trees) == Len(trees[1].v[1])
Predict(trees, x) ==
  LET leaf == [k \in DOMAIN trees |-> Route(trees[k], 1, x)]
  IN  [o \in 1..OutputDim(trees) |-> QSum([k \in DOMAIN trees |-> trees[k].v[leaf[k]][o]])]
PredictDefault(trees, x) ==
  LET leaf == [k \in DOMAIN trees |-> RouteDefault(trees[k], 1, x)]
  IN  [o \in 1..OutputDim(trees) |-> QSum([k \in DOMAIN trees |-> trees[k].v[leaf[k]][o]])]

=============================================================================

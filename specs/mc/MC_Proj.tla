------------------------------- MODULE MC_Proj ------------------------------
(* Every tree of depth two over two columns, every small background, row, set and least cell size. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, ProjForest
CONSTANTS Rows, Leasts
VARIABLES tree, data, x, S, least

Splits == {1, 2} \X {0, 1}
None == <<0, 0>>
\* a root split and at most one split below each side
TreeOf(a, b, c) ==
  [l |-> <<2, IF b = None THEN 0 ELSE 4, IF c = None THEN 0 ELSE 6, 0, 0, 0, 0>>,
   r |-> <<3, IF b = None THEN 0 ELSE 5, IF c = None THEN 0 ELSE 7, 0, 0, 0, 0>>,
   f |-> <<a[1], b[1], c[1], 0, 0, 0, 0>>, t |-> <<a[2], b[2], c[2], 0, 0, 0, 0>>, v |-> [k \in 1..7 |-> <<"0/1">>]]
Points == {<<0, 0>>, <<1, 1>>, <<2, 0>>, <<0, 2>>}
Grid == (0..2) \X (0..2)

Init == /\ tree \in {TreeOf(a, b, c) : a \in Splits, b \in Splits \cup {None}, c \in Splits \cup {None}}
        /\ data \in [1..Rows -> Points]
        /\ x = <<>> /\ S = {} /\ least = 0
Next == /\ x = <<>>
        /\ x' \in {<<0, 2>>, <<1, 0>>, <<2, 1>>}
        /\ S' \in SUBSET {1, 2}
        /\ least' \in Leasts
        /\ UNCHANGED <<tree, data>>

go == Follow(tree, x, S)
w == Walk(tree, go, data, least, DepthFrom(tree, 1))
wr == WalkRefining(tree, go, data, least, DepthFrom(tree, 1))
\* the inner nodes that some input agreeing with x on S reaches
RECURSIVE Reached(_)
Reached(k) == IF IsLeaf(tree, k) THEN {}
              ELSE {k} \cup (IF go[k] # "R" THEN Reached(tree.l[k]) ELSE {}) \cup (IF go[k] # "L" THEN Reached(tree.r[k]) ELSE {})
Agree(z) == \A k \in Reached(1) : tree.f[k] \in S => GoesLeft(tree, k, z) = GoesLeft(tree, k, x)

\* nothing is dropped that agrees with x on the splits of S it can meet
Sound == x # <<>> => {i \in DOMAIN data : Agree(data[i])} \subseteq w.rows
\* all the others are dropped when the walk ends by itself
Exact == x # <<>> /\ ~w.quit /\ least <= 1 => w.rows = {i \in DOMAIN data : Agree(data[i])}
\* conditioning on all the columns, the cell is the leaf of x
FullIsLeaf == x # <<>> /\ S = {1, 2} /\ least = 0 => w.rows = {i \in DOMAIN data : Route(tree, 1, data[i]) = Route(tree, 1, x)}
NothingKnown == x # <<>> /\ S = {} => w.rows = DOMAIN data /\ w.used = {}
\* the refining walk keeps enough rows
Enough == x # <<>> /\ Rows >= least => Cardinality(wr.rows) >= least /\ {i \in DOMAIN data : Agree(data[i])} \subseteq wr.rows
\* every input in the rule has the same cell
RuleInvariant == x # <<>> => LET R == Rule(<<tree>>, <<w>>, <<go>>, 2) IN
                 /\ InBox(R, x)
                 /\ \A z \in Grid : InBox(R, z) => Walk(tree, Follow(tree, z, S), data, least, DepthFrom(tree, 1)).rows = w.rows
                 /\ \A j \in {1, 2} \ S : R[j] = <<-Inf, Inf>>
\* the weights share out one
Weights == x # <<>> /\ w.rows # {} => /\ QEq(MassOf(<<w>>, DOMAIN data), 1)
                          /\ \A I \in SUBSET DOMAIN data : QEq(QAdd(MassOf(<<w>>, I), MassOf(<<w>>, DOMAIN data \ I)), 1)
\* following the box of a point outside of S is following x outside of S
BoxIsPoint == x # <<>> => FollowBox(tree, x, S, [j \in {1, 2} |-> <<x[j], x[j]>>]) = Follow(tree, x, {1, 2})
             /\ FollowBox(tree, x, S, Whole(2)) = go /\ OutsideBox(tree, S, [j \in {1, 2} |-> <<x[j], x[j]>>]) = Follow(tree, x, {1, 2} \ S)
=============================================================================

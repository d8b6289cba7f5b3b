----------------------------- MODULE ProjForest -----------------------------
(***************************************************************************)
(* Projected forests.                                                      *)
(*                                                                         *)
(* A tree is walked level by level from its root with a guide: at a node   *)
(* the guide goes left, right or both ways.  Where it goes one way, the    *)
(* background rows on the other side are dropped; the rows that are left   *)
(* are the cell.  Nodes of a level are visited from left to right.  The    *)
(* walk is abandoned as soon as a visit leaves fewer than Min rows, except *)
(* that abandoning the root still visits the first of its children.        *)
(*                                                                         *)
(* Cells weigh the background rows (uniformly in a cell, uniformly over    *)
(* the trees); all the estimates are weighted means.                       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE Forest

Inner(T) == {k \in DOMAIN T.l : ~IsLeaf(T, k)}
\* Guides.  Follow x on the columns S, both ways elsewhere
SideOf(T, k, x) == IF GoesLeft(T, k, x) THEN "L" ELSE "R"
Follow(T, x, S) == [k \in Inner(T) |-> IF T.f[k] \in S THEN SideOf(T, k, x) ELSE "B"]
\* towards a closed box: one way where the box lies on one side
Towards(T, k, box) == IF box[T.f[k]][2] <= T.t[k] THEN "L" ELSE IF box[T.f[k]][1] > T.t[k] THEN "R" ELSE "B"
\* follow x on S, the box elsewhere
FollowBox(T, x, S, box) == [k \in Inner(T) |-> IF T.f[k] \in S THEN SideOf(T, k, x) ELSE Towards(T, k, box)]
\* follow the box outside of S
OutsideBox(T, S, box) == [k \in Inner(T) |-> IF T.f[k] \in S THEN "B" ELSE Towards(T, k, box)]

Goes(T, k, way, z) == way = "B" \/ (way = "L") = GoesLeft(T, k, z)
Ahead(T, k, way) == SelectSeq(CASE way = "L" -> <<T.l[k]>> [] way = "R" -> <<T.r[k]>> [] OTHER -> <<T.l[k], T.r[k]>>,
                              LAMBDA c : ~IsLeaf(T, c))
First(T, k, way) == IF way = "R" THEN T.r[k] ELSE T.l[k]

\* The state of a walk: the rows left, the nodes where rows were dropped, the nodes of the next level
Start(data) == [rows |-> DOMAIN data, used |-> {}, next |-> <<>>, quit |-> FALSE]
Visit(T, go, data, k, st) ==
  [rows |-> {i \in st.rows : Goes(T, k, go[k], data[i])},
   used |-> IF go[k] = "B" THEN st.used ELSE st.used \cup {k},
   next |-> st.next \o Ahead(T, k, go[k]), quit |-> FALSE]
RECURSIVE Scan(_, _, _, _, _, _)
Scan(T, go, data, least, todo, st) ==
  IF todo = <<>> THEN st
  ELSE LET s == Visit(T, go, data, Head(todo), st) IN
       IF Cardinality(s.rows) < least THEN [s EXCEPT !.quit = TRUE] ELSE Scan(T, go, data, least, Tail(todo), s)
RECURSIVE Descend(_, _, _, _, _, _)
Descend(T, go, data, least, depth, st) ==
  IF depth = 0 \/ st.next = <<>> \/ st.quit THEN st
  ELSE Descend(T, go, data, least, depth - 1, Scan(T, go, data, least, st.next, [st EXCEPT !.next = <<>>]))
Walk(T, go, data, least, depth) ==
  IF IsLeaf(T, 1) \/ depth = 0 THEN Start(data)
  ELSE LET s == Scan(T, go, data, least, <<1>>, Start(data))
           c == First(T, 1, go[1])
       IN  IF ~s.quit THEN Descend(T, go, data, least, depth - 1, s)
           ELSE IF IsLeaf(T, c) \/ depth = 1 THEN s ELSE Visit(T, go, data, c, s)

\* The refining walk never drops below Least rows: a visit that would is refused, and ends the walk unless at the root
RECURSIVE Refine(_, _, _, _, _, _)
Refine(T, go, data, least, todo, st) ==
  IF todo = <<>> THEN st
  ELSE LET s == Visit(T, go, data, Head(todo), st) IN
       IF Cardinality(s.rows) >= least THEN Refine(T, go, data, least, Tail(todo), s)
       ELSE [st EXCEPT !.quit = Head(todo) # 1, !.next = s.next]
RECURSIVE RefineAll(_, _, _, _, _, _)
RefineAll(T, go, data, least, depth, st) ==
  IF depth = 0 \/ st.next = <<>> \/ st.quit THEN st
  ELSE RefineAll(T, go, data, least, depth - 1, Refine(T, go, data, least, st.next, [st EXCEPT !.next = <<>>]))
WalkRefining(T, go, data, least, depth) ==
  IF IsLeaf(T, 1) THEN Start(data) ELSE RefineAll(T, go, data, least, depth, [Start(data) EXCEPT !.next = <<1>>])

RECURSIVE DepthFrom(_, _)
LOCAL Max(a, b) == IF a >= b THEN a ELSE b
DepthFrom(T, k) == IF IsLeaf(T, k) THEN 0 ELSE 1 + Max(DepthFrom(T, T.l[k]), DepthFrom(T, T.r[k]))
ForestDepth(trees) == LET D == {DepthFrom(trees[b], 1) : b \in DOMAIN trees} IN CHOOSE a \in D : \A b \in D : b <= a

\* go[b]: the guide of tree b
Walks(trees, go, data, least) ==
  LET d == ForestDepth(trees) IN TLCEval([b \in DOMAIN trees |-> Walk(trees[b], go[b], data, least, d)])
Guides(trees, x, S) == TLCEval([b \in DOMAIN trees |-> Follow(trees[b], x, S)])
Project(trees, x, S, data, least) == Walks(trees, Guides(trees, x, S), data, least)

\* the weight of each background row
Weight(walks, i) == QSum([b \in DOMAIN walks |->
                       IF i \in walks[b].rows THEN Q(1, Len(walks) * Cardinality(walks[b].rows)) ELSE "0/1"])
\* the weight of a set of rows, and the weighted mean of g
MassOf(walks, I) == QSum([b \in DOMAIN walks |->
                       IF walks[b].rows = {} THEN "0/1" ELSE Q(Cardinality(walks[b].rows \cap I), Len(walks) * Cardinality(walks[b].rows))])
MeanOf(walks, g) == QSum([i \in DOMAIN g |-> QMul(Weight(walks, i), g[i])])

\* the intersection (lower, upper] of the sides taken in all the trees
Cut(trees, walks, go, j) == {<<b, k>> \in UNION {{b} \X walks[b].used : b \in DOMAIN walks} : trees[b].f[k] = j}
Rule(trees, walks, go, m) ==
  [j \in 1..m |->
    LET lows == {trees[c[1]].t[c[2]] : c \in {e \in Cut(trees, walks, go, j) : go[e[1]][e[2]] = "R"}}
        highs == {trees[c[1]].t[c[2]] : c \in {e \in Cut(trees, walks, go, j) : go[e[1]][e[2]] = "L"}}
    IN  <<IF lows = {} THEN -Inf ELSE CHOOSE a \in lows : \A b \in lows : b <= a,
          IF highs = {} THEN Inf ELSE CHOOSE a \in highs : \A b \in highs : a <= b>>]

(***************************************************************************)
(* The weighted quantile q (in percent) of distinct values y under weights *)
(* w: each row sits in the middle of its own weight, linear in between.    *)
(***************************************************************************)
Quantile(y, w, q) ==
  LET I == {i \in DOMAIN y : ~QEq(w[i], 0)}
      total == QSum([i \in DOMAIN w |-> w[i]])
      at == TLCEval([i \in I |-> QDiv(QMul(100, QAdd(QSum([k \in DOMAIN w |-> IF k \in I /\ QLt(y[k], y[i]) THEN w[k] ELSE "0/1"]),
                                          QDiv(w[i], 2))), total)])
      below == {i \in I : QLt(at[i], q)}
      above == I \ below
      lo == CHOOSE i \in below : \A k \in below : QLe(y[k], y[i])
      hi == CHOOSE i \in above : \A k \in above : QLe(y[i], y[k])
  IN  IF I = {} THEN "any" ELSE IF below = {} THEN y[hi] ELSE IF above = {} THEN y[lo]
      ELSE QAdd(y[lo], QMul(QDiv(QSub(q, at[lo]), QSub(at[hi], at[lo])), QSub(y[hi], y[lo])))
=============================================================================

--------------------------- MODULE Counterfactual ---------------------------
(***************************************************************************)
(* Counterfactual rules.                                                   *)
(*                                                                         *)
(* A divergent set S of a row has columns that bring the wanted decision   *)
(* when they move while the others stay (at the row: local; in the         *)
(* sufficient rule of the row: regional).  Boxes around training rows with *)
(* the wanted decision propose where to move them: a candidate takes the   *)
(* sides of a box on S and keeps the rest.  The candidates whose           *)
(* Counterfactual Decision Probability reaches pi, less those inside       *)
(* another one, are the rules; failing any, the best one is.               *)
(*                                                                         *)
(* Sampling takes, on S, training values inside the best rule and leaves   *)
(* the other columns of the row alone.                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Rat
LOCAL INSTANCE Forest

Within(a, b) == \A j \in DOMAIN a : b[j][1] <= a[j][1] /\ a[j][2] <= b[j][2]
In(box, S, z) == \A j \in S : box[j][1] <= z[j] /\ z[j] <= box[j][2]
\* the candidate made from a box
Moved(kept, box, S) == [j \in DOMAIN kept |-> IF j \in S THEN box[j] ELSE kept[j]]
Point(x) == [j \in DOMAIN x |-> <<x[j], x[j]>>]

Maximal(B) == {b \in B : \A d \in B : Within(b, d) => d = b}
\* worth: a function on the candidates
Chosen(worth, pi) ==
  LET good == {b \in DOMAIN worth : QLe(pi, worth[b])} IN
  IF good # {} THEN {Maximal(good)} ELSE {{b} : b \in {d \in DOMAIN worth : \A e \in DOMAIN worth : QLe(worth[e], worth[d])}}

\* training rows that propose boxes: wanted rows of the cell (weight not null), else wanted rows
Proposers(wanted, near) == IF wanted \cap near # {} THEN wanted \cap near ELSE wanted

\* a point sampled from x with a rule on S
Values(box, data, j) == LET V == {data[z][j] : z \in DOMAIN data} IN
                        LET I == {v \in V : box[j][1] <= v /\ v <= box[j][2]} IN IF I = {} THEN {box[j][1]} ELSE I
Sampled(p, x, box, S, data) == \A j \in DOMAIN x : IF j \in S THEN p[j] \in Values(box, data, j) ELSE p[j] = x[j]

\* test rows (in order) that a rule takes: the first upto of those it holds

FirstOf(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, 1, k)
HeldBy(rule, rows) == SelectSeq([z \in DOMAIN rows |-> z], LAMBDA z : In(rule, DOMAIN rule, rows[z]))
\* rules with the upper sides only
Inside(rule, z) == \A j \in DOMAIN rule : rule[j][1] < z[j] /\ z[j] <= rule[j][2]

(***************************************************************************)
(* The removal, one candidate after the other, as it is done on sequences  *)
(***************************************************************************)
CONSTANTS Boxes, Many
VARIABLES list, at, gone
cvars == <<list, at, gone>>
CInit == /\ list \in UNION {[1..k -> Boxes] : k \in 1..Many}
         /\ at = 1 /\ gone = {}
Covered(i) == \E j \in DOMAIN list \ {i} : Within(list[i], list[j]) /\ ~(list[i] = list[j] /\ i < j)
CNext == /\ at <= Len(list)
         /\ at' = at + 1
         /\ gone' = IF Covered(at) THEN gone \cup {at} ELSE gone
         /\ UNCHANGED list
CSpec == CInit /\ [][CNext]_cvars
Left == {i \in DOMAIN list : i \notin gone}
\* at the end exactly one of each maximal box is left
Removes == at > Len(list) => /\ {list[i] : i \in Left} = Maximal({list[i] : i \in DOMAIN list})
                             /\ Cardinality(Left) = Cardinality({list[i] : i \in Left})
\* whatever the removal has left covers every candidate
Covers == \A i \in DOMAIN list : \E j \in Left : Within(list[i], list[j])
=============================================================================

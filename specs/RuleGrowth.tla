------------------------------ MODULE RuleGrowth -----------------------------
(***************************************************************************)
(* Rules are boxes: an interval (lower, upper] for each column.            *)
(*                                                                         *)
(* Maximal rules.  The rule of a row grows over the rules of background    *)
(* rows that are sufficient themselves: it is extended along the one side  *)
(* it shares with a neighbour when the neighbour covers it on the other    *)
(* columns, which makes the union of the two a box.                        *)
(*                                                                         *)
(* Global rules.  A rule is a closed box on the columns that define it;    *)
(* its coverage, output and quality are those of the training rows it      *)
(* holds; a row is predicted by the best eligible rule that holds it.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Rat
LOCAL INSTANCE Forest

Contains(a, b) == \A j \in DOMAIN a : a[j][1] <= b[j][1] /\ b[j][2] <= a[j][2]

\* the sides of a that b continues: <<column, 1 (lower) or 2 (upper)>>
Sides(a, b, S) == {<<j, 1>> : j \in {k \in S : a[k][1] = b[k][2]}} \cup {<<j, 2>> : j \in {k \in S : a[k][2] = b[k][1]}}
Extends(a, b, S) == /\ Cardinality(Sides(a, b, S)) = 1
                    /\ LET s == CHOOSE z \in Sides(a, b, S) : TRUE IN
                       \A j \in S \ {s[1]} : b[j][1] <= a[j][1] /\ a[j][2] <= b[j][2]
Extended(a, b, S) == LET s == CHOOSE z \in Sides(a, b, S) : TRUE IN [a EXCEPT ![s[1]][s[2]] = b[s[1]][s[2]]]

(***************************************************************************)
(* Global rules: training rows data with targets yd (rationals)            *)
(***************************************************************************)
Holds(rule, S, z) == \A j \in S : rule[j][1] <= z[j] /\ z[j] <= rule[j][2]
Held(rule, S, data) == {i \in DOMAIN data : Holds(rule, S, data[i])}
Mean(I, g) == QDiv(QSum([i \in DOMAIN g |-> IF i \in I THEN g[i] ELSE "0/1"]), Cardinality(I))
Squares(I, g, a) == Mean(I, [i \in DOMAIN g |-> QMul(QSub(g[i], a), QSub(g[i], a))])
\* clf: targets 0 and 1
Metrics(rule, S, data, yd, clf) ==
  LET I == Held(rule, S, data)
      p == Mean(I, yd)
      o == IF clf THEN (IF QLt("1/2", p) THEN "1/1" ELSE "0/1") ELSE p
  IN  IF I = {} THEN [coverage |-> "0/1", empty |-> TRUE]
      ELSE [coverage |-> Q(Cardinality(I), Len(data)), empty |-> FALSE, mean |-> p, output |-> o, var |-> Squares(I, yd, p),
            quality |-> IF clf THEN Q(Cardinality({i \in I : QEq(yd[i], o)}), Cardinality(I)) ELSE Squares(I, yd, o)]
\* the rules among which the prediction of z is taken: those that hold z and cover enough
Eligible(rules, Ss, ms, z, cov) == {r \in DOMAIN rules : ~ms[r].empty /\ Holds(rules[r], Ss[r], z) /\ QLe(cov, ms[r].coverage)}
Better(a, b, clf) == IF clf THEN QLt(b, a) ELSE QLt(a, b)
Best(E, ms, clf) == {r \in E : \A s \in E : ~Better(ms[s].quality, ms[r].quality, clf)}
=============================================================================

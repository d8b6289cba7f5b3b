------------------------------- MODULE Swing --------------------------------
(***************************************************************************)
(* Swing Shapley values: the Shapley values of the simple game in which a  *)
(* coalition wins when its Same Decision Probability reaches a threshold.  *)
(* A player's value splits into its positive swings (it makes a losing     *)
(* coalition win) and its negative ones, each also counted.                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE Game
LOCAL INSTANCE SequencesExt

\* Win: the set of the winning coalitions of the players P
Swings(Win, P, p, up) == {T \in SUBSET (P \ {p}) : IF up THEN T \notin Win /\ T \cup {p} \in Win ELSE T \in Win /\ T \cup {p} \notin Win}
SwingMass(Win, P, p, up) == QSum(LET s == SetToSeq(Swings(Win, P, p, up)) IN [k \in DOMAIN s |-> OrderWeight(Cardinality(s[k]), Cardinality(P))])
SwingRecord(Win, P, p) ==
  LET a == SwingMass(Win, P, p, TRUE)
      b == SwingMass(Win, P, p, FALSE)
      na == Cardinality(Swings(Win, P, p, TRUE))
      nb == Cardinality(Swings(Win, P, p, FALSE))
  IN  [phi |-> QSub(a, b), up |-> a, down |-> QSub(0, b), n |-> <<na, nb, Cardinality(SUBSET (P \ {p})) - na - nb>>]
=============================================================================

------------------------------ MODULE Marginal ------------------------------
(***************************************************************************)
(* The marginal Same Decision Probability of any predictor: how often the  *)
(* prediction stays the same when the columns S keep the values of x and   *)
(* the others take those of a background row.                              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE Forest

Mix(x, z, S) == [j \in DOMAIN x |-> IF j \in S THEN x[j] ELSE z[j]]
Dist(a, b) == IF QLt(a, b) THEN QSub(b, a) ELSE QSub(a, b)
\* band: how far the prediction may move (0: not at all)
Msdp(trees, data, x, S, band) ==
  IF S = DOMAIN x THEN "1/1"
  ELSE LET f == Predict(trees, x)[1] IN
       Q(Cardinality({i \in DOMAIN data : QLe(Dist(Predict(trees, Mix(x, data[i], S))[1], f), band)}), Len(data))
=============================================================================

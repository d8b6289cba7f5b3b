----------------------------- MODULE SearchDef ------------------------------
(***************************************************************************)
(* The search for a minimal sufficient set of a row, level by level.       *)
(*                                                                         *)
(* Players are disjoint sets of columns, in a sequence.  Level k examines  *)
(* the coalitions of k players.  The worth of a coalition (a Same Decision *)
(* Probability) depends on its columns.  A row is decided at the end of    *)
(* the first level where a coalition is worth at least pi; it then keeps   *)
(* the best coalition met.  With the half rule, the search stops after the *)
(* first level whose last coalition has at least half the columns.         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Subsets(n, k) == {I \in SUBSET (1..n) : Cardinality(I) = k}
ColumnsOf(players, I) == UNION {players[i] : i \in I}
Level(players, k) == {ColumnsOf(players, I) : I \in Subsets(Len(players), k)}
LastOf(players, k) == ColumnsOf(players, (Len(players) - k + 1)..Len(players))

\* the last level that a row may need
StopLevels(players, m, minimal) == {k \in minimal..Len(players) : Cardinality(LastOf(players, k)) >= m \div 2}
LastLevel(players, m, minimal, half) ==
  IF half /\ StopLevels(players, m, minimal) # {} THEN CHOOSE k \in StopLevels(players, m, minimal) : \A l \in StopLevels(players, m, minimal) : k <= l
  ELSE Len(players)

(***************************************************************************)
(* What the search must return for a row, in terms of the worths W (a      *)
(* function on the coalitions of levels minimal..last) of a comparison Le  *)
(* and of pi: a level and the set of the coalitions it may return.         *)
(***************************************************************************)
Levels(players, m, minimal, half) ==
  [k \in minimal..LastLevel(players, m, minimal, half) |-> Level(players, k)]
Best(W, Ts, Le(_, _)) == {T \in Ts : \A U \in Ts : Le(W[U], W[T])}
DecidingLevels(W, L, pi, Le(_, _)) == {k \in DOMAIN L : \E T \in L[k] : Le(pi, W[T])}
\* the best coalitions that are worth at least zero; at the deciding level, if there is one, else anywhere
Answers(W, L, pi, zero, Le(_, _)) ==
  LET D == DecidingLevels(W, L, pi, Le)
      Ts == IF D # {} THEN L[CHOOSE k \in D : \A l \in D : k <= l] ELSE UNION {L[k] : k \in DOMAIN L}
  IN  {T \in Best(W, Ts, Le) : Le(zero, W[T])}

=============================================================================

-------------------------------- MODULE Game --------------------------------
(***************************************************************************)
(* Cooperative games and their Shapley values.                             *)
(*                                                                         *)
(* A player is a set of features (a single feature, or a group).  V is a   *)
(* function from sets of players to vectors of d rationals.                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE SequencesExt

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

\* probability that exactly a given set of s players comes before p in a random order of n players
OrderWeight(s, n) == Q(Fact(s) * Fact(n - s - 1), Fact(n))

\* Shapley value of player p in the game V over the set of players P
Shapley(V, P, p, d) ==
  LET Ts == SetToSeq(SUBSET (P \ {p}))
      ws == [k \in DOMAIN Ts |-> OrderWeight(Cardinality(Ts[k]), Cardinality(P))]
      up == TLCEval([k \in DOMAIN Ts |-> V[Ts[k] \cup {p}]])
      lo == TLCEval([k \in DOMAIN Ts |-> V[Ts[k]]])
  IN  [o \in 1..d |-> QDot(ws, [k \in DOMAIN Ts |-> QSub(up[k][o], lo[k][o])])]

\* the same by its definition: the average over the orders of the players of the marginal contribution of p
Orders(P) == {s \in [1..Cardinality(P) -> P] : \A a, b \in DOMAIN s : s[a] = s[b] => a = b}
ShapleyByOrders(V, P, p, d) ==
  LET os == SetToSeq(Orders(P))
      pos(s) == CHOOSE k \in DOMAIN s : s[k] = p
      bef(s) == {s[k] : k \in 1..(pos(s) - 1)}
  IN  [o \in 1..d |-> QMul(Q(1, Len(os)),
         QSum([k \in DOMAIN os |-> QSub(V[bef(os[k]) \cup {p}][o], V[bef(os[k])][o])]))]

Singletons(S) == {{j} : j \in S}
\* players when the features 1..m are grouped by C (a set of disjoint sets of features)
PlayersOf(m, C) == Singletons((1..m) \ UNION C) \cup C
=============================================================================

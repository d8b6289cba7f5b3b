------------------------------- MODULE Search -------------------------------
EXTENDS Integers, Sequences, FiniteSets, SearchDef
(***************************************************************************)
(* The search itself, for several rows at once, coalitions of a level in   *)
(* any order.                                                              *)
(***************************************************************************)
CONSTANTS Players, M, Minimal, Half, Rows, Worths, Pi, Zero, ForceFull
VARIABLES W, level, todo, undecided, best, done
vars == <<W, level, todo, undecided, best, done>>

LOCAL Leq(a, b) == a <= b
Domain == UNION {Level(Players, k) : k \in 0..Len(Players)}
LastL == LastLevel(Players, M, Minimal, Half)
Full == 1..M
Init == /\ W \in [Rows -> {w \in [Domain -> Worths] : ForceFull /\ Full \in Domain => \A v \in Worths : w[Full] >= v}]
        /\ level = Minimal /\ todo = Level(Players, Minimal) /\ undecided = Rows /\ done = FALSE
        /\ best = [r \in Rows |-> [set |-> {}, worth |-> Zero, found |-> FALSE]]
Examine(T) ==
  /\ ~done /\ T \in todo
  /\ todo' = todo \ {T}
  /\ best' = [r \in Rows |-> IF r \in undecided /\ W[r][T] >= best[r].worth
                             THEN [set |-> T, worth |-> W[r][T], found |-> TRUE] ELSE best[r]]
  /\ UNCHANGED <<W, level, undecided, done>>
EndLevel ==
  /\ ~done /\ todo = {}
  /\ undecided' = {r \in undecided : best[r].worth < Pi}
  /\ IF level = LastL \/ undecided' = {} THEN done' = TRUE /\ UNCHANGED <<level, todo>>
     ELSE done' = FALSE /\ level' = level + 1 /\ todo' = Level(Players, level + 1)
  /\ UNCHANGED <<W, best>>
Next == (\E T \in todo : Examine(T)) \/ EndLevel
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TheLevels == Levels(Players, M, Minimal, Half)
\* the answer of every row is one the definition allows, whatever the order and the other rows
Outcome == done => \A r \in Rows :
  LET A == Answers(W[r], TheLevels, Pi, Zero, Leq) IN
  IF A = {} THEN ~best[r].found ELSE best[r].set \in A /\ best[r].worth = W[r][best[r].set]
\* a sufficient answer is minimal: no coalition of fewer players examined is sufficient
MinimalAnswer == \A r \in Rows \ undecided :
  \E k \in DOMAIN TheLevels : best[r].set \in TheLevels[k] /\
     \A l \in DOMAIN TheLevels : l < k => \A T \in TheLevels[l] : W[r][T] < Pi
Frozen == [][\A r \in Rows : r \notin undecided => best'[r] = best[r]]_vars
Ends == <>done
=============================================================================

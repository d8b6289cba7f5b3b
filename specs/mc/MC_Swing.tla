------------------------------ MODULE MC_Swing ------------------------------
(* Every simple game of up to three players: its swing values are its Shapley values, by orders, and share out v(P). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Game, Swing, SequencesExt
CONSTANT Size
VARIABLES win
P == {{j} : j \in 1..Size}
Init == win \in {W \in SUBSET (SUBSET P) : {} \notin W /\ P \in W}
Next == UNCHANGED win
V == [T \in SUBSET P |-> <<IF T \in win THEN 1 ELSE 0>>]
Agree == \A p \in P : LET r == SwingRecord(win, P, p) IN
           /\ QEq(r.phi, ShapleyByOrders(V, P, p, 1)[1])
           /\ QEq(r.phi, Shapley(V, P, p, 1)[1])
           /\ QEq(r.phi, QAdd(r.up, r.down))
           /\ r.n[1] + r.n[2] + r.n[3] = 2 ^ (Size - 1)
Efficient == QEq(QSum(LET s == SetToSeq(P) IN [k \in DOMAIN s |-> SwingRecord(win, P, s[k]).phi]), 1)
=============================================================================

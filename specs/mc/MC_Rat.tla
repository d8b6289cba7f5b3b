------------------------------- MODULE MC_Rat -------------------------------
(* The big-integer operators agree with the definitions of Rat on small rationals. *)
EXTENDS Integers, Sequences, TLC, Rat
VARIABLES a, b
Rs == {<<n, d>> : n \in -4..4, d \in 1..4}
Init == a \in Rs /\ b \in Rs
Next == UNCHANGED <<a, b>>
\* the definitions of Rat, restated on pairs
Same(p, q) == QEq(p, q) /\ Q(p[1], p[2]) = q
Agree ==
  /\ Same(<<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>, QAdd(a, b))
  /\ Same(<<a[1]*b[2] - b[1]*a[2], a[2]*b[2]>>, QSub(a, b))
  /\ Same(<<a[1]*b[1], a[2]*b[2]>>, QMul(a, b))
  /\ b[1] # 0 => Same(IF b[1] > 0 THEN <<a[1]*b[2], a[2]*b[1]>> ELSE <<-(a[1]*b[2]), -(a[2]*b[1])>>, QDiv(a, b))
  /\ QLe(a, b) = (a[1]*b[2] <= b[1]*a[2])
  /\ QLt(a, b) = (a[1]*b[2] < b[1]*a[2])
  /\ QEq(a, b) = (a[1]*b[2] = b[1]*a[2])
  /\ QEq(QSum(<<a, b, a>>), QAdd(QAdd(a, b), a))
  /\ QEq(QDot(<<a, b>>, <<b, a>>), QAdd(QMul(a, b), QMul(b, a)))
  /\ QClose(a, b, <<1, 8>>) =
       (LET d == a[1]*b[2] - b[1]*a[2] IN
        8 * (IF d < 0 THEN -d ELSE d) <= a[2] * (b[2] + (IF b[1] < 0 THEN -b[1] ELSE b[1])))
=============================================================================

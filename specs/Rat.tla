-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The definitions below are the meaning of the operators on pairs of      *)
(* integers <<n, d>>.  TLC integers have 32 bits, so TLC evaluates the     *)
(* same operators with java/acvspec/RatOverride.java, on big integers; its *)
(* results are canonical strings "n/d".  mc/MC_Rat.tla compares the two    *)
(* exhaustively on small rationals.                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Num(a) == a[1]
LOCAL Den(a) == a[2]

Q(n, d) == <<n, d>>
QAdd(a, b) == <<Num(a) * Den(b) + Num(b) * Den(a), Den(a) * Den(b)>>
QSub(a, b) == <<Num(a) * Den(b) - Num(b) * Den(a), Den(a) * Den(b)>>
QMul(a, b) == <<Num(a) * Num(b), Den(a) * Den(b)>>
QDiv(a, b) == IF Num(b) > 0 THEN <<Num(a) * Den(b), Den(a) * Num(b)>>
                            ELSE <<-(Num(a) * Den(b)), -(Den(a) * Num(b))>>
QLe(a, b) == Num(a) * Den(b) <= Num(b) * Den(a)
QLt(a, b) == Num(a) * Den(b) < Num(b) * Den(a)
QEq(a, b) == Num(a) * Den(b) = Num(b) * Den(a)

RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN <<0, 1>> ELSE QAdd(Head(s), QSum(Tail(s)))

RECURSIVE QDot(_, _)
QDot(s, t) == IF s = <<>> THEN <<0, 1>>
              ELSE QAdd(QMul(Head(s), Head(t)), QDot(Tail(s), Tail(t)))

LOCAL Abs(a) == IF Num(a) < 0 THEN <<-Num(a), Den(a)>> ELSE a

\* a is e up to the rounding of the implementation's floating point numbers
QClose(a, e, tol) == QLe(Abs(QSub(a, e)), QMul(tol, QAdd(<<1, 1>>, Abs(e))))

\* rounding to single precision (only evaluated by the override)
QF32(a) == a
=============================================================================

------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Recorded cases.  A case is a record with a field calls: a sequence of   *)
(* requests, each with the results (outs) the variants of the API gave.    *)
(* A result has a field out, or err when the call raised, and mut when it  *)
(* changed its inputs.                                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE IOUtils
LOCAL INSTANCE Json
LOCAL INSTANCE Rat

Cases == ndJsonDeserialize(IOEnv.TRACE)

Tol == "1/100000000"
Close(a, e) == QClose(a, e, Tol)

ToSet(s) == {s[k] : k \in DOMAIN s}
SetOfSets(s) == {ToSet(s[k]) : k \in DOMAIN s}
IsVec(a, n) == Len(a) = n
IsMat(a, n, k) == Len(a) = n /\ \A i \in 1..n : Len(a[i]) = k
IsCube(a, n, k, l) == Len(a) = n /\ \A i \in 1..n : IsMat(a[i], k, l)

\* failures of a request: Judge(out) gives the set of clauses the result breaks
Failing(k, call, Judge(_)) ==
  UNION {LET o == call.outs[v] IN
         (IF "mut" \in DOMAIN o THEN {<<k, o.v, "inputs">>} ELSE {}) \cup
         (IF "err" \in DOMAIN o THEN {<<k, o.v, "raised">>}
          ELSE {<<k, o.v, c>> : c \in Judge(o.out)}) : v \in DOMAIN call.outs}
If(cond, name) == IF cond THEN {} ELSE {name}
=============================================================================

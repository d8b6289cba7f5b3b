------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of an explainer.                                               *)
(*                                                                         *)
(* An ACXplainer is fitted to data set 1 or 2, any number of times, and is *)
(* given rule set 1 or 2, any number of times; what it answers depends on  *)
(* the last of each only, and it refuses to answer before the first.  A    *)
(* fit that fails changes nothing, and neither does any answer.            *)
(* An ACVTree explains one model: its answers depend on the call only,     *)
(* whatever was asked before, with whatever threads or cache.              *)
(* A copy (written to disk and read back) is as good as the original.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

AcxOps == {"fit1", "fit2", "badfit", "rules1", "rules2", "badrules", "copy", "explain", "predict", "apply"}
TreeOps == {"call1", "call2", "call3", "call4", "call5", "call6", "copy", "threads"}
Ops(kind) == IF kind = "acx" THEN AcxOps ELSE TreeOps
Asks == {"explain", "predict", "apply", "call1", "call2", "call3", "call4", "call5", "call6"}

\* forest and rules: 0 (none yet), 1 or 2
New(kind) == [forest |-> IF kind = "acx" THEN 0 ELSE 1, rules |-> 0]
After(s, op) == CASE op = "fit1" -> [s EXCEPT !.forest = 1]
                  [] op = "fit2" -> [s EXCEPT !.forest = 2]
                  [] op = "rules1" -> [s EXCEPT !.rules = 1]
                  [] op = "rules2" -> [s EXCEPT !.rules = 2]
                  [] OTHER -> s
\* what an answer is made from; 0: it is refused
Source(s, op) == IF op = "apply" THEN s.rules ELSE s.forest

\* the state before step i of a history
RECURSIVE Before(_, _, _)
Before(kind, h, i) == IF i = 1 THEN New(kind) ELSE After(Before(kind, h, i - 1), h[i - 1])

(***************************************************************************)
(* As a state machine, and an implementation of it that builds what its    *)
(* explanations need from the forest when it is first asked (built: what   *)
(* it was built from), and forgets it when fitted again                    *)
(***************************************************************************)
CONSTANTS Kind, Length
VARIABLES state, built, hist, answer
vars == <<state, built, hist, answer>>

LInit == state = New(Kind) /\ built = 0 /\ hist = <<>> /\ answer = 0
LDo(op) == /\ Len(hist) < Length
           /\ hist' = Append(hist, op)
           /\ state' = After(state, op)
           /\ built' = IF op \in {"fit1", "fit2"} THEN 0 ELSE IF op = "explain" /\ built = 0 THEN state.forest ELSE built
           /\ answer' = IF op \notin Asks THEN 0 ELSE IF op = "explain" THEN built' ELSE Source(state, op)
LNext == \E op \in Ops(Kind) : LDo(op)
LSpec == LInit /\ [][LNext]_vars

\* every answer is made from the last fit, and the state is the one the history leads to
Current == hist = <<>> \/ LET op == hist[Len(hist)] IN op \in Asks => answer = Source(Before(Kind, hist, Len(hist)), op)
Replay == hist = <<>> \/ state = After(Before(Kind, hist, Len(hist)), hist[Len(hist)])
=============================================================================

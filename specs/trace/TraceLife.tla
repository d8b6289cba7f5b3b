------------------------------ MODULE TraceLife ------------------------------
(* Replayed histories of explainers, judged by Lifecycle and by the specifications of the answers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, TraceBase
VARIABLES n, res
SX == INSTANCE SequencesExt
P == INSTANCE TraceProj
L == INSTANCE TraceLeaf
R == INSTANCE TraceRules
Life == INSTANCE Lifecycle WITH Kind <- "acx", Length <- 0, state <- 0, built <- 0, hist <- <<>>, answer <- 0

(***************************************************************************)
(* A case has kind, hist: sequences of steps [op, r (the question asked),  *)
(* out | refused | err, mut], and what the answers are judged with:        *)
(* models[k] (trees, digest, predict), rulesets[k], requests, applies.     *)
(***************************************************************************)
OpsOf(h) == [i \in DOMAIN h |-> h[i].op]
\* the steps with the state they were taken in
Steps(c) == UNION {LET h == c.hist[x]
                       o == OpsOf(h)
                   IN {<<x, i, Life!Source(Life!Before(c.kind, o, i), o[i])>> : i \in DOMAIN h} : x \in DOMAIN c.hist}
At(c, s) == c.hist[s[1]][s[2]]

\* the answers to question r made from k, once each
Answers(c, St, ops, r, k) ==
  LET D == {LET a == At(c, s) IN IF "out" \in DOMAIN a THEN [v |-> "answer", out |-> a.out] ELSE [v |-> "answer", err |-> a.err]
            : s \in {s \in St : At(c, s).op \in ops /\ "r" \in DOMAIN At(c, s) /\ At(c, s).r = r /\ s[3] = k /\ "refused" \notin DOMAIN At(c, s)}}
  IN SX!SetToSeq(D)
With(q, outs) == [f \in DOMAIN q \cup {"outs"} |-> IF f = "outs" THEN outs ELSE q[f]]
Joined(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF f \in DOMAIN b THEN b[f] ELSE a[f]]

Step(c, s) ==
  LET a == At(c, s)
      refused == "refused" \in DOMAIN a
      must == a.op \in {"badfit", "badrules"} \/ (a.op \in Life!Asks /\ s[3] = 0)
  IN If("mut" \notin DOMAIN a, <<s, a.op, "inputs">>)
     \cup If(refused = must, <<s, a.op, "refusal">>)
     \cup If("err" \notin DOMAIN a, <<s, a.op, "raised">>)
     \cup If(a.op \in {"fit1", "fit2"} /\ "out" \in DOMAIN a => a.out = c.models[IF a.op = "fit1" THEN 1 ELSE 2].digest, <<s, a.op, "forest">>)
     \cup If(a.op = "predict" /\ "out" \in DOMAIN a /\ s[3] # 0 => a.out = c.models[s[3]].predict, <<s, a.op, "prediction">>)

AcxFailures(c, St) ==
  UNION {UNION {LET outs == Answers(c, St, {"explain"}, r, k)
                    d == Joined(c, [trees |-> c.models[k].trees, calls |-> <<With(c.requests[r], outs)>>])
                IN IF outs = <<>> THEN {} ELSE {<<"explain", r, k, f>> : f \in P!Request(d, 1)}
                : r \in DOMAIN c.requests} : k \in 1..2}
  \cup
  UNION {UNION {LET outs == Answers(c, St, {"apply"}, r, k)
                    q == Joined(c.applies[r], c.rulesets[k])
                IN IF outs = <<>> THEN {} ELSE {<<"apply", r, k, f>> : f \in R!Request([calls |-> <<With(q, outs)>>], 1)}
                : r \in DOMAIN c.applies} : k \in 1..2}
TreeFailures(c, St) ==
  LET F == L!Prepared(c) IN
  UNION {LET outs == Answers(c, St, Life!Asks, r, 1)
             d == Joined(c, [rows |-> c.requests[r].rows, calls |-> <<With(c.requests[r], outs)>>])
         IN IF outs = <<>> THEN {} ELSE {<<"call", r, f>> : f \in L!Request(d, F, 1)} : r \in DOMAIN c.requests}

Failures(c) == LET St == Steps(c) IN
  UNION {Step(c, s) : s \in St} \cup (IF c.kind = "acx" THEN AcxFailures(c, St) ELSE TreeFailures(c, St))

Init == n \in DOMAIN Cases /\ res = "recorded"
Next == /\ res = "recorded"
        /\ n' = n
        /\ LET f == Failures(Cases[n]) IN
             /\ res' = IF f = {} THEN "accepted" ELSE "rejected"
             /\ PrintT("VERDICT " \o ToString(n) \o " " \o ToString(f))
=============================================================================

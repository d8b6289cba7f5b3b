----------------------------- MODULE TraceRules ------------------------------
(* Recorded global rules, judged by RuleGrowth. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, RuleGrowth, TraceBase
VARIABLES n, res

(***************************************************************************)
(* A request has clf, rules with their columns S (both as given), training *)
(* rows data with targets yd; for a prediction, rows X, the coverage and   *)
(* the level (quality) required.                                           *)
(***************************************************************************)
SameBox(a, b) == \A j \in DOMAIN b : a[j][1] = b[j][1] /\ a[j][2] = b[j][2]
MetricsOf(q) == TLCEval([r \in DOMAIN q.rules |-> Metrics(q.rules[r], ToSet(q.S[r]), q.data, q.yd, q.clf = 1)])
Sets(q) == TLCEval([r \in DOMAIN q.S |-> ToSet(q.S[r])])
Reaches(q, v) == IF q.clf = 1 THEN QLe(q.level, v) ELSE QLe(v, q.level)

Request(c, k) ==
  LET q == c.calls[k] IN
  CASE q.f = "gmetrics" ->  \* out: rules, S, coverage, quality, var, output and, for classes, proba
         LET ms == MetricsOf(q)
             Judge(out) ==
               LET K == Len(out.rules)
                   at(r) == {s \in DOMAIN q.rules : SameBox(out.rules[r], q.rules[s]) /\ ToSet(out.S[r]) = ToSet(q.S[s])}
                   ok(r) == LET z == ms[CHOOSE s \in at(r) : TRUE] IN
                            /\ Close(out.coverage[r], z.coverage)
                            /\ z.empty \/ (/\ Close(out.quality[r], z.quality) /\ Close(out.var[r], z.var) /\ Close(out.output[r], z.output)
                                           /\ q.clf = 1 => Close(out.proba[r], z.mean))
               IN  IF ~(Len(out.S) = K /\ Len(out.coverage) = K /\ Len(out.quality) = K /\ Len(out.var) = K /\ Len(out.output) = K) THEN {"shape"}
                   ELSE If(\A r \in 1..K : at(r) # {}, "columns")
                        \cup If(\A r, s \in 1..K : r # s => ~SameBox(out.rules[r], out.rules[s]), "unique")
                        \cup If(\A s \in DOMAIN q.rules : \E r \in 1..K : SameBox(out.rules[r], q.rules[s]), "kept")
                        \cup If(\A r \in 1..K : at(r) # {} => ok(r), "metrics")
         IN Failing(k, q, Judge)
    [] q.f = "gpredict" ->  \* out: y ("none" for an abstention), rule, S
         LET ms == MetricsOf(q)
             Ss == Sets(q)
             E == TLCEval([i \in DOMAIN q.X |-> Eligible(q.rules, Ss, ms, q.X[i], q.cov)])
             B == TLCEval([i \in DOMAIN q.X |-> Best(E[i], ms, q.clf = 1)])
             near(i) == \E r \in B[i] : Close(ms[r].quality, q.level) /\ ~QEq(ms[r].quality, q.level)
             level(i) == ms[CHOOSE r \in B[i] : TRUE].quality
             \* rules as good as the best up to rounding
             good(i) == {r \in E[i] : q.clf = 0 /\ Close(ms[r].quality, level(i))} \cup B[i]
             answers(i) == E[i] # {} /\ Reaches(q, level(i))
             Says(out, i) == \E r \in good(i) : /\ Close(out.y[i], IF q.proba = 1 THEN ms[r].mean ELSE ms[r].output)
                                               /\ SameBox(out.rule[i], q.rules[r]) /\ ToSet(out.S[i]) = Ss[r]
             Judge(out) ==
               IF ~(Len(out.y) = Len(q.X) /\ Len(out.rule) = Len(q.X) /\ Len(out.S) = Len(q.X)) THEN {"shape"}
               ELSE If(\A i \in DOMAIN q.X : (q.clf = 0 /\ near(i)) \/ (out.y[i] = "none") = ~answers(i), "abstention")
                    \cup If(\A i \in DOMAIN q.X : out.y[i] # "none" /\ E[i] # {} => Says(out, i), "prediction")
         IN Failing(k, q, Judge)

Failures(c) == UNION {Request(c, k) : k \in DOMAIN c.calls}

Init == n \in DOMAIN Cases /\ res = "recorded"
Next == /\ res = "recorded"
        /\ n' = n
        /\ LET f == Failures(Cases[n]) IN
             /\ res' = IF f = {} THEN "accepted" ELSE "rejected"
             /\ PrintT("VERDICT " \o ToString(n) \o " " \o ToString(f))
=============================================================================

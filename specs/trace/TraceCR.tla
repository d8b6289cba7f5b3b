------------------------------- MODULE TraceCR -------------------------------
(* Recorded runs of the counterfactual rules, judged by Counterfactual and by the specification of the estimates. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Forest, ProjForest, TraceBase
VARIABLES n, res
P == INSTANCE TraceProj
R == INSTANCE Counterfactual WITH Boxes <- {}, Many <- 0, list <- <<>>, at <- 0, gone <- {}

Tolerance(q) == IF "tol" \in DOMAIN q THEN q.tol ELSE Tol
Close8(a, b, q) == QClose(a, b, Tolerance(q))

CRequest(c, k) ==
  LET q == c.calls[k]
      N == Len(c.X)
  IN
  CASE q.f = "sets" ->  \* the columns of a set, in the order of the search, and the others
         LET Judge(out) ==
               IF ~(Len(out.star) = N /\ Len(out.bar) = N) THEN {"shape"}
               ELSE If(\A i \in 1..N : out.star[i] = SubSeq(q.sets[i], 1, q.size[i]), "star")
                    \cup If(\A i \in 1..N : /\ ToSet(out.bar[i]) = (1..c.m) \ {q.sets[i][p] : p \in 1..q.size[i]}
                                            /\ Len(out.bar[i]) = c.m - q.size[i], "bar")
         IN Failing(k, q, Judge)
    [] q.f = "nothing" -> LET Judge(out) == {} IN Failing(k, q, Judge)
    [] q.f = "crules" ->  \* out: rules, values, w, evaluated
         LET S == [i \in 1..N |-> ToSet(q.S[i])]
             bar == [i \in 1..N |-> ToSet(q.bar[i])]
             kept == [i \in 1..N |-> IF q.where = "local" THEN R!Point(c.X[i]) ELSE q.cond[i]]
             follows(i) == IF q.where = "local" THEN bar[i] ELSE {}
             walks(i, box) == Walks(c.trees, TLCEval([b \in DOMAIN c.trees |-> FollowBox(c.trees[b], c.X[i], follows(i), box)]), c.data, q.least)
             wanted(i) == P!Inside(c, q, i)
             near(i) == {z \in DOMAIN c.data : ~QEq(q.w[i][z], 0)}
             good(v) == QLe(q.pi, v)
             clear(o, i) == \A e \in DOMAIN o.evaluated[i] : ~Close8(o.evaluated[i][e].value, q.pi, q)
             Judge(out) ==
               IF ~(Len(out.rules) = N /\ Len(out.values) = N /\ Len(out.w) = N
                    /\ \A i \in 1..N : Len(out.rules[i]) >= 1 /\ Len(out.values[i]) = Len(out.rules[i]) /\ IsMat(out.w[i], Len(out.rules[i]), Len(c.data))) THEN {"shape"}
               ELSE LET w == TLCEval([i \in 1..N |-> TLCEval([r \in DOMAIN out.rules[i] |-> walks(i, out.rules[i][r])])]) IN
                    \* the other columns stay where they were
                    If(\A i \in 1..N : \A r \in DOMAIN out.rules[i] : \A j \in bar[i] : out.rules[i][r][j][1] = kept[i][j][1] /\ out.rules[i][r][j][2] = kept[i][j][2], "kept")
                    \cup If(\A i \in 1..N : \A r \in DOMAIN out.rules[i] : \A j \in S[i] :
                            /\ out.rules[i][r][j][1] \in ToSet(c.cuts[j]) \cup {-Inf}
                            /\ out.rules[i][r][j][2] \in ToSet(c.cuts[j]) \cup {Inf}, "sides")
                    \cup If(\A i \in 1..N : \A r \in DOMAIN out.rules[i] : Close8(out.values[i][r], MassOf(w[i][r], wanted(i)), q), "value")
                    \cup If(\A i \in 1..N : \A r \in DOMAIN out.rules[i] : \A z \in DOMAIN c.data : Close8(out.w[i][r][z], Weight(w[i][r], z), q), "weights")
                    \cup If(\A i \in 1..N : Len(out.rules[i]) = 1 \/ \A r \in DOMAIN out.rules[i] : good(out.values[i][r]) \/ Close8(out.values[i][r], q.pi, q), "probability")
                    \cup If(\A i \in 1..N : \A r, d \in DOMAIN out.rules[i] : r # d => ~R!Within(out.rules[i][r], out.rules[i][d]), "inside")
                    \* a training row with the wanted decision shows the way
                    \cup If(\A i \in 1..N : \A r \in DOMAIN out.rules[i] :
                            \E z \in R!Proposers(wanted(i), near(i)) : R!In(out.rules[i][r], S[i], c.data[z]), "proposed")
                    \* nothing that was found good is lost
                    \cup If(\A i \in 1..N : clear(out, i) =>
                            LET E == out.evaluated[i]
                                G == {e \in DOMAIN E : good(E[e].value)}
                            IN  IF G # {} THEN \A e \in G : \E r \in DOMAIN out.rules[i] : R!Within(E[e].box, out.rules[i][r])
                                ELSE Len(out.rules[i]) = 1 /\ \A e \in DOMAIN E : QLe(E[e].value, out.values[i][1]) \/ Close8(E[e].value, out.values[i][1], q), "complete")
         IN Failing(k, q, Judge)
    [] q.f = "csample" ->  \* out: points, pred, orig, score, outlier, errs, errs2, accuracy, accuracy2, coverage
         LET best(i) == {r \in DOMAIN q.rules[i] : \A d \in DOMAIN q.rules[i] : QLe(q.values[i][d], q.values[i][r])}
             top(i) == q.values[i][CHOOSE r \in best(i) : TRUE]
             \* the start of each sample and the rules it may come from
             firsts(i) == LET h == R!FirstOf(R!HeldBy(q.cond[i], q.starts), q.upto) IN [z \in DOMAIN h |-> <<h[z], {i}>>]
             holders(z) == {i \in DOMAIN q.cond : R!Inside(q.cond[i], q.starts[z]) /\ QLt(0, top(i))}
             bests(z) == {i \in holders(z) : \A d \in holders(z) : QLe(top(d), top(i))}
             RECURSIVE Join(_)
             Join(i) == IF i > N THEN <<>> ELSE firsts(i) \o Join(i + 1)
             plan == TLCEval(IF q.where = "local" THEN [i \in 1..N |-> <<i, {i}>>]
                     ELSE IF q.way = "first" THEN Join(1)
                     ELSE LET zs == SelectSeq([z \in DOMAIN q.starts |-> z], LAMBDA z : holders(z) # {}) IN [p \in DOMAIN zs |-> <<zs[p], bests(zs[p])>>])
             total == IF q.where = "regional" /\ q.way = "first" THEN Len(plan) ELSE Len(q.starts)
             K == Len(plan)
             errOf(out, p, i) == IF q.clf = 1 THEN ~QEq(out.pred[p], q.pred[plan[p][1]])
                                 ELSE QLe(q.t[i][1], out.pred[p]) /\ QLe(out.pred[p], q.t[i][2])
             fits(out, p) == \E i \in plan[p][2] :
                               /\ \E r \in best(i) : R!Sampled(out.points[p], q.starts[plan[p][1]], q.rules[i][r], ToSet(q.S[i]), c.data)
                               /\ (out.errs[p] = 1) = errOf(out, p, i)
             share(e) == Q(Cardinality({p \in DOMAIN e : e[p] = 1}), Len(e))
             Judge(out) ==
               IF ~(Len(out.points) = K /\ Len(out.errs) = K /\ Len(out.score) = K) THEN {"shape"}
               ELSE If(\A p \in 1..K : fits(out, p), "point")
                    \cup If(\A p \in 1..K : Close8(out.score[p], out.outlier[p], q), "score")
                    \cup If(K = 0 \/ Close8(out.accuracy, share(out.errs), q), "accuracy")
                    \cup If(total = 0 \/ Close8(out.coverage, Q(K, total), q), "coverage")
                    \cup If(IF Len(q.orig) = 0 THEN Len(out.errs2) = 0
                            ELSE Len(out.errs2) = K /\ \A p \in 1..K : (out.errs2[p] = 1) = ~QEq(out.orig[p], q.orig[plan[p][1]]), "model")
                    \cup If(Len(q.orig) = 0 \/ K = 0 \/ Close8(out.accuracy2, share(out.errs2), q), "model accuracy")
         IN Failing(k, q, Judge)
    [] OTHER -> P!Request(c, k)

Failures(c) == UNION {CRequest(c, k) : k \in DOMAIN c.calls}

Init == n \in DOMAIN Cases /\ res = "recorded"
Next == /\ res = "recorded"
        /\ n' = n
        /\ LET f == Failures(Cases[n]) IN
             /\ res' = IF f = {} THEN "accepted" ELSE "rejected"
             /\ PrintT("VERDICT " \o ToString(n) \o " " \o ToString(f))
=============================================================================

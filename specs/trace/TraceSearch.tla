---------------------------- MODULE TraceSearch -----------------------------
(* Recorded searches, judged by SearchDef. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Rat
LOCAL INSTANCE SearchDef
LOCAL INSTANCE TraceBase

(***************************************************************************)
(* A search for minimal sufficient sets.  out: sets (padded with 0), size, *)
(* sdp of each row, and glob, the frequency of each column in the          *)
(* sufficient sets.  Worth(i, T): the worth of columns T for row i.        *)
(***************************************************************************)
\* the players: single columns out of groups, then the groups; in a search space, its columns, and the groups it meets
PlayerSeq(m, q, space) ==
  LET G == IF "C" \in DOMAIN q THEN [g \in DOMAIN q.C |-> ToSet(q.C[g])] ELSE <<>>
      grouped == UNION {G[g] : g \in DOMAIN G}
      singles == SelectSeq(space, LAMBDA j : j \notin grouped)
      meets(g) == g \cap ToSet(space) # {}
  IN  [p \in DOMAIN singles |-> {singles[p]}] \o SelectSeq(G, meets)
Search(c, q, out, L, W, tol) ==
  LET N == Len(c.rows)
      Padded(r) == out.size[r] \in 0..c.m /\ Len(out.sets[r]) = c.m
                   /\ \A p \in 1..c.m : (out.sets[r][p] # 0) = (p <= out.size[r])
      Set(r) == ToSet(out.sets[r]) \ {0}
      Near(v) == QClose(v, q.pi, tol)
      Le(a, b) == QLe(a, b) \/ QClose(a, b, tol)
      \* rows where a worth means nothing, or cannot be told from pi
      Clear(i) == \A k \in DOMAIN L : \A T \in L[k] : W[i][T] # "any" /\ ~Near(W[i][T])
      clear == TLCEval({i \in DOMAIN c.X : Clear(i)})
      ans == TLCEval([i \in clear |-> Answers(W[i], L, q.pi, 0, Le)])
  IN
  IF ~(Len(out.size) = N /\ Len(out.sdp) = N /\ Len(out.sets) = N /\ Len(out.glob) = c.m) THEN {"shape"}
  ELSE IF ~(\A r \in 1..N : Padded(r)) THEN {"padding"}
  ELSE If(\A r \in 1..N : LET i == c.rows[r] IN i \in clear =>
            IF ans[i] = {} THEN Set(r) = {} /\ QEq(out.sdp[r], 0)
            ELSE Set(r) \in ans[i], "set")
       \cup If(\A r \in 1..N : LET i == c.rows[r] IN i \in clear /\ Set(r) \in DOMAIN W[i] => QClose(out.sdp[r], W[i][Set(r)], tol), "sdp")
       \cup If(\A r \in 1..N : Cardinality(Set(r)) = out.size[r], "distinct")
       \cup If(\A j \in 1..c.m : Close(out.glob[j],
               Q(Cardinality({r \in 1..N : j \in Set(r) /\ QLe(q.pi, out.sdp[r])}), N)), "global")
=============================================================================

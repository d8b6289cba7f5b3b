----------------------------- MODULE MC_Search -----------------------------
EXTENDS Search, TLC
P3 == <<{1}, {2}, {3}>>
PG == <<{1}, {2, 3}>>
PH == <<{2}, {1, 3}, {4}>>
=============================================================================

------------------------------- MODULE MC_Life -------------------------------
(* The life of an explainer; the histories of the given length that end with a question are written to OUT for replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lifecycle, IOUtils, Json
CONSTANT Chunk
SX == INSTANCE SequencesExt

RECURSIVE Histories(_)
Histories(k) == IF k = 0 THEN {<<>>} ELSE {<<op>> \o h : op \in Ops(Kind), h \in Histories(k - 1)}
All == SX!SetToSeq({Append(h, q) : h \in Histories(Length - 1), q \in Ops(Kind) \cap Asks})
\* a line holds every k-th history
Lines == (Len(All) + Chunk - 1) \div Chunk
ASSUME ndJsonSerialize(IOEnv.OUT, [l \in 1..Lines |->
         [kind |-> Kind, hist |-> [z \in 1..((Len(All) - l) \div Lines + 1) |-> All[l + (z - 1) * Lines]]]])
=============================================================================

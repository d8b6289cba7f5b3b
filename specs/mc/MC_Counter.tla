----------------------------- MODULE MC_Counter -----------------------------
EXTENDS Counterfactual, Integers, Sequences, FiniteSets
CONSTANT Top
Ivals == {<<a, b>> \in (0..Top) \X (0..Top) : a <= b}
AllBoxes == {<<u, v>> : u \in Ivals, v \in {<<0, 0>>, <<0, 1>>, <<1, 1>>}}
=============================================================================

------------------------------ MODULE MC_Growth ------------------------------
(* A rule over two columns grows over three other rules, in every order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Forest, RuleGrowth
CONSTANT Top
VARIABLES start, others, rule, left

Ivs == {<<a, b>> : a \in 0..Top, b \in 0..Top} \cap {iv \in (0..Top) \X (0..Top) : iv[1] < iv[2]}
Boxes == {<<a, b>> : a \in Ivs, b \in Ivs}
Cells == (1..Top) \X (1..Top)
Inside(b) == {z \in Cells : InBox(b, z)}

Init == /\ start \in Boxes /\ others = {} /\ rule = start /\ left = {}
Pick == /\ others = {}
        /\ \E a, b \in Boxes : others' = {a, b}
        /\ left' = others' /\ UNCHANGED <<start, rule>>
Grow == \E b \in left :
          /\ Extends(rule, b, {1, 2})
          /\ rule' = Extended(rule, b, {1, 2}) /\ left' = left \ {b}
          /\ UNCHANGED <<start, others>>
Next == Pick \/ Grow
Spec == Init /\ [][Next]_<<start, others, rule, left>>

IsBox == \A j \in 1..2 : rule[j][1] < rule[j][2]
\* nothing but what the rule and the rules it grew over hold
SoundGrowth == Inside(rule) \subseteq Inside(start) \cup UNION {Inside(b) : b \in others \ left}
Grows == Contains(rule, start)
\* growing adds cells
Strict == [][Inside(rule) # Inside(rule)' => Inside(rule) \subseteq Inside(rule)']_rule
=============================================================================

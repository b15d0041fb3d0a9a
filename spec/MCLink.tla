------------------------------- MODULE MCLink ------------------------------
(* Link with digits 0..3 and three of them, so that all of 0..63 is there. *)
EXTENDS Link
CONSTANTS Limit, MaxFlying
All == [1..3 -> 0..3]
Numbers == {x \in All : 16 * x[1] + 4 * x[2] + x[3] <= Limit}
Seqs == {<<x[1], x[2], x[3]>> : x \in Numbers}
MCTop == <<4, 0, 0>>
Next ==
    \/ \E pn \in Seqs, n \in 1..MaxLen : Cardinality(flying) < MaxFlying /\ Send(pn, n)
    \/ \E pn \in Seqs : Lose(pn)
    \/ \E x \in flying : Deliver(x)
    \/ \E pn \in Seqs : Ack(pn)
Spec == Init /\ [][Next]_vars
\* What flies no longer may be forgotten.
Land == \E x \in flying : flying' = flying \ {x} /\ UNCHANGED <<last, acked, largest>>
SpecF == Init /\ [][Next \/ Land]_vars
=============================================================================

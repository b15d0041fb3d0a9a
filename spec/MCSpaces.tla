------------------------------ MODULE MCSpaces -----------------------------
(* Spaces with small numbers. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conns, MCSpaceNames, Limit, MaxPackets, MaxSlack
VARIABLES last, slack, packets
S == INSTANCE Spaces WITH SpaceNames <- MCSpaceNames, Numbers <- 0..Limit, Zero <- 0,
                          Succ <- LAMBDA x : x + 1, Less <- LAMBDA x, y : x < y
vars == <<last, slack, packets>>
Init == S!InitFor(Conns)
Next ==
    \E c \in Conns, s \in MCSpaceNames :
        \/ \E pn \in 0..Limit :
            \/ S!Number(c, s, pn)
            \/ Cardinality(packets) < MaxPackets /\ S!Build(c, s, pn, Cardinality(packets))
            \/ S!Jump(c, s, pn)
        \/ slack[c][s] < MaxSlack /\ S!Fail(c, s)
        \/ S!Quiet
Spec == Init /\ [][Next]_vars
NoNonceTwice == S!NoNonceTwice
BehindCounter == S!BehindCounter
Increasing == S!Increasing
Independent == S!Independent
=============================================================================

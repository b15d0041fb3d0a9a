------------------------------ MODULE GenLink ------------------------------
(***************************************************************************)
(* Behaviours of Link with QUIC's numbers, to be replayed on two real      *)
(* connections: bursts of losses that end next to the edge of a window,    *)
(* late and early acknowledgements, deliveries in any order.               *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC, Json
CONSTANT Length
VARIABLES last, acked, largest, flying, sent, ops
K == INSTANCE Link WITH Base <- 256, Size <- 8, Top <- <<64, 0, 0, 0, 0, 0, 0, 0>>, MaxLen <- 4
P == INSTANCE PacketNumbers WITH Base <- 256, Size <- 8, Top <- <<64, 0, 0, 0, 0, 0, 0, 0>>
vars == <<last, acked, largest, flying, sent, ops>>

Choice(k) == RandomElement(1..(k + 0 * Len(ops)))
Note(x) == ops' = Append(ops, x)
Init == K!Init /\ sent = <<>> /\ ops = <<>>

Nexts == {pn \in {IF last = <<>> THEN P!PnOne ELSE P!PnAdd(last[1], P!PnOne)} : TRUE}
Send ==
    \E pn \in Nexts : \E n \in {m \in 1..4 : P!SafeLength(pn, acked, m)} :
        /\ \A m \in 1..(n - 1) : ~P!SafeLength(pn, acked, m)
        /\ K!Send(pn, n)
        /\ sent' = Append(sent, [pn |-> pn, t |-> P!Truncate(pn, n)])
        /\ Note([op |-> "send"])

\* 2^(8n-1) is half of the window of n bytes.
Pow(e) == [i \in 1..8 |-> IF i = 8 - (e \div 8) THEN 2 ^ (e % 8) ELSE 0]
Small(k) == [i \in 1..8 |-> IF i = 8 THEN k ELSE 0]
Exponent(k) == <<0, 3, 7, 7, 7, 8, 15, 15, 16, 23, 23, 24, 31, 31>>[k]
\* Around the edge, counted from the largest acknowledged number.
From == IF acked # <<>> /\ Choice(3) # 1 THEN acked[1] ELSE IF last = <<>> THEN P!PnZero ELSE last[1]
Lose ==
    \E a \in {From}, e \in {Exponent(Choice(14))}, d \in {Choice(5) - 3} :
        LET edge == P!PnAdd(a, Pow(e))
            to == IF d < 0 /\ P!PnLess(Small(-d), edge) THEN P!PnSub(edge, Small(-d)) ELSE P!PnAdd(edge, Small(IF d < 0 THEN 0 ELSE d))
        IN  /\ K!Lose(to) /\ UNCHANGED sent
            /\ Note([op |-> "lose", last |-> to])
Deliver ==
    /\ sent # <<>>
    \* mostly the newest ones
    /\ \E i \in {IF Choice(3) = 1 THEN Choice(Len(sent)) ELSE Len(sent)} :
        K!Deliver(sent[i]) /\ UNCHANGED sent /\ Note([op |-> "deliver", i |-> i])
Ack ==
    /\ sent # <<>>
    /\ \E i \in {Choice(Len(sent))} : K!Ack(sent[i].pn) /\ UNCHANGED sent /\ Note([op |-> "ack", pn |-> sent[i].pn])
Next == Send \/ Lose \/ Deliver \/ Ack
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Length => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
Going == Len(ops) < Length
=============================================================================

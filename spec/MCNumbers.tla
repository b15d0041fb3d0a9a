----------------------------- MODULE MCNumbers -----------------------------
(***************************************************************************)
(* Truncation and reconstruction with QUIC's numbers (62 bits, 1 to 4      *)
(* bytes), at the edges of all windows: a sender that acts on what was     *)
(* acknowledged and a receiver that is at or after the acknowledged number *)
(* agree.  MCLink is about histories, with small numbers; here the numbers *)
(* are those of QUIC.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Spread
VARIABLES pn, other, n
vars == <<pn, other, n>>
TopPn == <<64, 0, 0, 0, 0, 0, 0, 0>>
P == INSTANCE PacketNumbers WITH Base <- 256, Size <- 8, Top <- TopPn

Small(k) == [i \in 1..8 |-> IF i = 8 THEN k ELSE 0]
Pow(e) == [i \in 1..8 |-> IF i = 8 - (e \div 8) THEN 2 ^ (e % 8) ELSE 0]
Exponents == {0, 7, 8, 9, 15, 16, 23, 24, 31, 32, 33, 40, 61}
\* 2^e + d
Near(e, d) == IF d >= 0 THEN P!PnAdd(Pow(e), Small(d)) ELSE P!PnSub(Pow(e), Small(-d))
Edges == {Near(e, d) : e \in Exponents, d \in 0..Spread}
         \cup {Near(e, -d) : e \in Exponents \ {0}, d \in 1..Spread}
         \cup {P!PnZero, P!PnSub(TopPn, Small(1)), P!PnSub(TopPn, Small(2))}
Valid(x) == P!PnLess(x, TopPn)
Above(x, d) == {y \in {P!PnAdd(x, d)} : Valid(y)}
Below(x, d) == {y \in {IF P!PnLess(x, d) THEN TopPn ELSE P!PnSub(x, d)} : Valid(y)}

\* other: the largest number the receiver has (<<>>: none), next to pn in terms of some window
Init == pn \in Edges /\ other = <<>> /\ n = 0
Next == /\ n = 0
        /\ other' \in {<<>>} \cup {<<y>> : y \in UNION {Above(pn, d) \cup Below(pn, d) : d \in Edges}}
        \* after the last number there is no next one
        /\ other' # <<P!PnSub(TopPn, Small(1))>>
        /\ n' \in 1..4
        /\ UNCHANGED pn
Spec == Init /\ [][Next]_vars

R == P!Reconstruct(other, P!Truncate(pn, n))
Expected == IF other = <<>> THEN P!PnZero ELSE P!PnAdd(other[1], P!PnOne)
Dist(a, b) == IF P!PnLess(a, b) THEN P!PnSub(b, a) ELSE P!PnSub(a, b)

\* The result has the digits that travelled, and is a packet number.
KeepsDigits == n > 0 => (P!Truncate(R, n) = P!Truncate(pn, n) /\ Valid(R))
\* Of the numbers with those digits none is closer to the expected one.
Closest == n > 0 => \A w \in {P!Window(n)} :
             /\ (P!PnLeq(w, R) => P!PnLeq(Dist(R, Expected), Dist(P!PnSub(R, w), Expected)))
             /\ (Valid(P!PnAdd(R, w)) => P!PnLeq(Dist(R, Expected), Dist(P!PnAdd(R, w), Expected)))
Recovers == (n > 0 /\ P!InReach(pn, other, n)) => R = pn
\* other as acknowledged number: a receiver that is there, or anywhere up to pn, recovers pn.
SafeIsSafe ==
    (n > 0 /\ P!SafeLength(pn, other, n)) =>
        /\ R = pn
        /\ \A d \in Edges : \A y \in Below(pn, d) :
             (other = <<>> \/ P!PnLeq(other[1], y)) => P!Reconstruct(<<y>>, P!Truncate(pn, n)) = pn
\* More bytes are never less safe.
Monotone == n > 0 => \A m \in 1..4 : (m > n /\ P!SafeLength(pn, other, n)) => P!SafeLength(pn, other, m)
Least == IF \E m \in 1..4 : P!SafeLength(pn, other, m)
           THEN CHOOSE m \in 1..4 : P!SafeLength(pn, other, m) /\ \A k \in 1..(m - 1) : ~P!SafeLength(pn, other, k)
           ELSE 0
Emit == ("EMIT" \in DOMAIN IOEnv /\ n > 0) =>
    PrintT(<<"BEHAVIOUR", ToJson([k |-> "number", pn |-> pn, other |-> other, t |-> P!Truncate(pn, n), got |-> R, least |-> Least])>>)
=============================================================================

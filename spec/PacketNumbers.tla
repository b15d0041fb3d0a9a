--------------------------- MODULE PacketNumbers ---------------------------
(***************************************************************************)
(* Truncation and reconstruction of packet numbers (RFC 9000, section 17.1 *)
(* and appendix A), over numbers that are sequences of Size digits to base *)
(* Base.  QUIC has Base = 256, Size = 8 and truncates to 1 to 4 digits;    *)
(* smaller parameters make the state space of MCLink finite.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Base, Size, Top   \* Top: first number that is not a packet number (2^62)

PnZero == [i \in 1..Size |-> 0]
PnOne == [i \in 1..Size |-> IF i = Size THEN 1 ELSE 0]

RECURSIVE PnLessFrom(_, _, _)
PnLessFrom(a, b, i) ==
    IF i > Size THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE PnLessFrom(a, b, i + 1)
PnLess(a, b) == PnLessFrom(a, b, 1)
PnLeq(a, b) == ~PnLess(b, a)

RECURSIVE PnSum(_, _, _, _)
PnSum(a, b, i, c) ==
    IF i = 0 THEN <<>>
    ELSE LET s == a[i] + b[i] + c
         IN  Append(PnSum(a, b, i - 1, s \div Base), s % Base)
PnAdd(a, b) == PnSum(a, b, Size, 0)

RECURSIVE PnDiff(_, _, _, _)
PnDiff(a, b, i, c) ==
    IF i = 0 THEN <<>>
    ELSE LET s == a[i] - b[i] - c
         IN  Append(PnDiff(a, b, i - 1, IF s < 0 THEN 1 ELSE 0), (s + Base) % Base)
\* for a >= b
PnSub(a, b) == PnDiff(a, b, Size, 0)

\* Window of n digits, and half of it.
Window(n) == [i \in 1..Size |-> IF i = Size - n THEN 1 ELSE 0]
HalfWindow(n) == [i \in 1..Size |-> IF i = Size - n + 1 THEN Base \div 2 ELSE 0]

Truncate(pn, n) == SubSeq(pn, Size - n + 1, Size)

\* The number closest to the next expected one that ends in the digits t.
\* largest is <<>> as long as nothing was received.
Reconstruct(largest, t) ==
    LET n == Len(t)
        expected == IF largest = <<>> THEN PnZero ELSE PnAdd(largest[1], PnOne)
        candidate == [i \in 1..Size |-> IF i <= Size - n THEN expected[i] ELSE t[i - Size + n]]
    IN  IF /\ PnLeq(PnAdd(candidate, HalfWindow(n)), expected)
           /\ PnLess(PnAdd(candidate, Window(n)), Top)
        THEN PnAdd(candidate, Window(n))
        ELSE IF /\ PnLess(PnAdd(expected, HalfWindow(n)), candidate)
                /\ PnLeq(Window(n), candidate)
        THEN PnSub(candidate, Window(n))
        ELSE candidate

\* n digits are enough for pn when the peer acknowledged acked (<<>>: nothing yet).
SafeLength(pn, acked, n) ==
    IF acked = <<>> THEN PnLess(pn, Window(n))
    ELSE PnLess(acked[1], pn) /\ PnLeq(PnSub(pn, acked[1]), HalfWindow(n))

\* A receiver that is at largest recovers pn from n digits.
InReach(pn, largest, n) ==
    IF largest = <<>> THEN PnLess(pn, Window(n))
    ELSE LET expected == PnAdd(largest[1], PnOne)
         IN  /\ PnLess(expected, PnAdd(pn, HalfWindow(n)))
             /\ PnLeq(pn, PnAdd(expected, HalfWindow(n)))
=============================================================================

------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, as sequences of 0..255, and 64-bit integers, as sequences *)
(* of 8 bytes, most significant first.  TLC's integers have 32 bits, so    *)
(* all 62- and 64-bit quantities of QUIC are kept as byte strings; only    *)
(* lengths of things that are really present become integers.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

Fail == [ok |-> FALSE]
\* A value read from a byte string, and the position after it.
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

Zeros(n) == [i \in 1..n |-> 0]
U64Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* bs, extended on the left with zeros to n bytes.
PadLeft(bs, n) == [i \in 1..n |-> IF i <= n - Len(bs) THEN 0 ELSE bs[i - (n - Len(bs))]]
U64(bs) == PadLeft(bs, 8)

\* More than any length that occurs in a datagram.
BIG == 1073741824

\* A 64-bit integer as a length: exact up to 2^24 - 1, otherwise BIG.
AsLen(u) == IF u[1] = 0 /\ u[2] = 0 /\ u[3] = 0 /\ u[4] = 0 /\ u[5] = 0
              THEN u[6] * 65536 + u[7] * 256 + u[8]
              ELSE BIG

\* A length below 2^24 as 64-bit integer.
LenU64(n) == <<0, 0, 0, 0, 0, n \div 65536, (n \div 256) % 256, n % 256>>

\* Position p of bs is the first of n bytes.
Has(bs, p, n) == n <= Len(bs) - p + 1
Take(bs, p, n) == IF Has(bs, p, n) THEN Got(SubSeq(bs, p, p + n - 1), p + n) ELSE Fail
Rest(bs, p) == SubSeq(bs, p, Len(bs))

\* Bit operations on bytes.
RECURSIVE XorBits(_, _, _)
XorBits(a, b, n) ==
    IF n = 0 THEN 0
    ELSE 2 * XorBits(a \div 2, b \div 2, n - 1) + ((a + b) % 2)
\* Tabulated once: TLC evaluates constant definitions a single time.
XorNibbles == [x \in 0..255 |-> XorBits(x \div 16, x % 16, 4)]
XorTable == [x \in 0..65535 |-> 16 * XorNibbles[16 * (x \div 4096) + ((x \div 16) % 16)]
                                 + XorNibbles[16 * ((x \div 256) % 16) + (x % 16)]]
Xor(a, b) == XorTable[a * 256 + b]
XorSeq(a, b) == [i \in 1..Len(a) |-> Xor(a[i], b[i])]

\* Bits of a byte that survive masking by 2^n - 1.
LowBits(a, n) == a % (2 ^ n)
Bit(a, n) == (a \div (2 ^ n)) % 2 = 1

\* Order and arithmetic of equally long big-endian numbers.
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessFrom(a, b, i + 1)
LessU(a, b) == LessFrom(a, b, 1)
LeqU(a, b) == ~LessU(b, a)

RECURSIVE SumU(_, _, _, _)
\* a + b + c over the digits 1..i; the carry out of digit 1 is lost.
SumU(a, b, i, c) ==
    IF i = 0 THEN <<>>
    ELSE LET s == a[i] + b[i] + c
         IN  Append(SumU(a, b, i - 1, s \div 256), s % 256)
AddU(a, b) == SumU(a, b, Len(a), 0)

RECURSIVE DiffU(_, _, _, _)
\* a - b - c over the digits 1..i, for a >= b.
DiffU(a, b, i, c) ==
    IF i = 0 THEN <<>>
    ELSE LET s == a[i] - b[i] - c
         IN  Append(DiffU(a, b, i - 1, IF s < 0 THEN 1 ELSE 0), (s + 256) % 256)
SubU(a, b) == DiffU(a, b, Len(a), 0)

\* The first element of sequence s with property P.
RECURSIVE FirstFrom(_, _, _)
FirstFrom(s, P(_), i) ==
    IF i > Len(s) THEN Fail ELSE IF P(s[i]) THEN Got(s[i], i) ELSE FirstFrom(s, P, i + 1)
First(s, P(_)) == FirstFrom(s, P, 1)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
=============================================================================

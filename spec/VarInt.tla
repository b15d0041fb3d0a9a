------------------------------- MODULE VarInt -------------------------------
(***************************************************************************)
(* Variable-length integers (RFC 9000, section 16): the two high bits of   *)
(* the first byte give the length 1, 2, 4 or 8.                            *)
(***************************************************************************)
EXTENDS Bytes

VarIntLens == {1, 2, 4, 8}
FormBits(n) == CASE n = 1 -> 0 [] n = 2 -> 64 [] n = 4 -> 128 [] n = 8 -> 192

\* Reads the integer that starts at position p.
VarIntAt(bs, p) ==
    IF p > Len(bs) THEN Fail
    ELSE LET n == 2 ^ (bs[p] \div 64)
         IN  IF ~Has(bs, p, n) THEN Fail
             ELSE Got([i \in 1..8 |-> CASE i < 9 - n -> 0
                                        [] i = 9 - n -> bs[p] % 64
                                        [] OTHER -> bs[p + i - 9 + n]],
                      p + n)

\* The integers a form of n bytes can carry.
FitsForm(u, n) == /\ \A i \in 1..(8 - n) : u[i] = 0
                  /\ u[9 - n] < 64
Encodable(u) == FitsForm(u, 8)

EncodeAs(u, n) == [i \in 1..n |-> IF i = 1 THEN FormBits(n) + u[9 - n] ELSE u[8 - n + i]]

\* The shortest form.
VarIntLen(u) == IF FitsForm(u, 1) THEN 1
                ELSE IF FitsForm(u, 2) THEN 2
                ELSE IF FitsForm(u, 4) THEN 4 ELSE 8
EncodeVarInt(u) == EncodeAs(u, VarIntLen(u))
=============================================================================

-------------------------- MODULE HeaderProtection -------------------------
(***************************************************************************)
(* Header protection (RFC 9001, section 5.4) of one header.                *)
(*                                                                         *)
(* clear: the first byte as the sender set it, when that is known (a header*)
(* that came from the network is only known masked); byte: the first byte  *)
(* as it is now; hidden: whether it is masked; rest: the other bytes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE XorBits(_, _, _)
XorBits(a, b, n) ==
    IF n = 0 THEN 0
    ELSE 2 * XorBits(a \div 2, b \div 2, n - 1) + (((a % 2) + (b % 2)) % 2)
Xor8(a, b) == XorBits(a, b, 8)

\* The protected bits: four of a long header, five of a short one.
Bits(long) == IF long THEN 16 ELSE 32
Masked(b, long, m) == Xor8(b, m % Bits(long))

\* Version negotiation and Retry packets have no protected bits.
Negotiates(long, rest) == long /\ Len(rest) >= 4 /\ SubSeq(rest, 1, 4) = <<0, 0, 0, 0>>
Bare(long, b, rest) == long /\ (Negotiates(long, rest) \/ (b \div 16) % 4 = 3)

Received(long, b, rest) == [long |-> long, byte |-> b, hidden |-> ~Bare(long, b, rest), rest |-> rest]
Made(long, b, rest) == [long |-> long, byte |-> b, hidden |-> FALSE, rest |-> rest]

Add(x, mask) == IF x.hidden THEN x
                ELSE [x EXCEPT !.byte = Masked(x.byte, x.long, mask[1]), !.hidden = TRUE]
Remove(x, mask) == IF ~x.hidden THEN x
                   ELSE [x EXCEPT !.byte = Masked(x.byte, x.long, mask[1]), !.hidden = FALSE]

\* What can be read, and what it is.
PnLength(x) == (x.byte % 4) + 1
Reserved(x) == (x.byte \div 8) % 4        \* short headers
KeyPhase(x) == (x.byte \div 4) % 2
Spin(x) == (x.byte \div 32) % 2
Type(x) == IF Negotiates(x.long, x.rest) THEN "vn"
           ELSE IF x.long THEN <<"initial", "zerortt", "handshake", "retry">>[((x.byte \div 16) % 4) + 1] ELSE "onertt"

\* Packet number bytes are masked with the bytes after the first one.
MaskedPn(pn, mask) == [i \in 1..Len(pn) |-> Xor8(pn[i], mask[i + 1])]
=============================================================================

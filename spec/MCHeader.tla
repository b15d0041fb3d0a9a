------------------------------ MODULE MCHeader -----------------------------
(***************************************************************************)
(* A sender and a receiver of one header, for all first bytes and masks:   *)
(* the sender adds protection, the network carries the header, the         *)
(* receiver removes it; either may do so more than once.                   *)
(***************************************************************************)
EXTENDS HeaderProtection, FiniteSets
CONSTANTS Bytes, MaskBytes
AllBytes == 0..255
SomeMasks == {0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 15, 31, 240, 224, 90, 165}
VARIABLES x, sent, clear, m
vars == <<x, sent, clear, m>>
Init == \E long \in BOOLEAN, b \in Bytes, k \in MaskBytes :
    /\ ~Bare(long, b, <<>>)
    /\ x = Made(long, b, <<>>) /\ sent = FALSE /\ clear = b /\ m = <<k>>
AddIt == x' = Add(x, m) /\ UNCHANGED <<sent, clear, m>>
RemoveIt == x' = Remove(x, m) /\ UNCHANGED <<sent, clear, m>>
Carry == /\ ~sent /\ x.hidden /\ sent' = TRUE
         /\ x' = Received(x.long, x.byte, x.rest) /\ UNCHANGED <<clear, m>>
Next == AddIt \/ RemoveIt \/ Carry
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* C20
Restored == ~x.hidden => x.byte = clear
OnlyProtectedBits == x.byte \div Bits(x.long) = clear \div Bits(x.long)
HiddenIsMasked == x.hidden => x.byte = Masked(clear, x.long, m[1])
TwiceIsOnce == Add(Add(x, m), m) = Add(x, m) /\ Remove(Remove(x, m), m) = Remove(x, m)
\* A header without protection stays what it is.
BareStays == \A b \in {176, 240, 245, 255} : Bare(TRUE, b, <<>>) => LET y == Received(TRUE, b, <<>>) IN Remove(y, m) = y
TypeReadable == Type(x) = Type([x EXCEPT !.byte = clear])
=============================================================================

------------------------------- MODULE MCSeal -------------------------------
(***************************************************************************)
(* Payload protection: an end seals payloads under packet numbers and      *)
(* associated data, in its packet number spaces; somebody presents every   *)
(* combination of what was sealed, or altered, to the peer.  Sealing is    *)
(* ideal in key, nonce and associated data; the nonce is RFC 9001's.       *)
(* With EMIT=1 every history is printed, to be carried out on the code.    *)
(***************************************************************************)
EXTENDS Packets, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxSeals, Powers
VARIABLE seals
vars == <<seals>>

KeysOfSpace == [s \in Spaces |-> LET k == CASE s = "initial" -> 1 [] s = "handshake" -> 2 [] s = "app" -> 3
                                 IN  [key |-> <<k>>, iv |-> [i \in 1..12 |-> ((i * 77) + (k * 13)) % 256], hp |-> <<100 + k>>]]
Pow(e) == [i \in 1..8 |-> IF i = 8 - (e \div 8) THEN 2 ^ (e % 8) ELSE 0]
Numbers == {U64Zero} \cup {Pow(e) : e \in Powers}
Heads == {<<>>, <<0>>, [i \in 1..33 |-> i]}
Payloads == {<<>>, [i \in 1..17 |-> 0]}
Sealable == [space : Spaces, pn : Numbers, aad : Heads, pt : Payloads]

Init == seals = <<>>
\* a packet number is used once per space
Next == /\ Len(seals) < MaxSeals
        /\ \E x \in Sealable : /\ \A j \in 1..Len(seals) : seals[j].space = x.space => seals[j].pn # x.pn
                               /\ seals' = Append(seals, x)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Ct(j) == <<j>> \o [i \in 1..(Len(seals[j].pt) + TagLen - 1) |-> i]
O == [sealed |-> [j \in 1..Len(seals) |->
        LET k == KeysOfSpace[seals[j].space]
        IN  [key |-> k.key, nonce |-> Nonce(k.iv, seals[j].pn), aad |-> seals[j].aad, ct |-> Ct(j), pt |-> seals[j].pt]]]
\* space of s, number of p, associated data of a, ciphertext of c
Try(s, p, a, c) == LET k == KeysOfSpace[seals[s].space]
                   IN  Open(O, k.key, Nonce(k.iv, seals[p].pn), seals[a].aad, Ct(c))
I == 1..Len(seals)

\* What is presented as it was sealed opens to what was sealed ...
Opens == \A j \in I : LET x == Try(j, j, j, j) IN x.ok /\ x.v.pt = seals[j].pt
\* ... and nothing else does: not in another place, with another number or other associated data.
OnlyThat == \A s \in I, p \in I, a \in I, c \in I :
              Try(s, p, a, c).ok => /\ seals[s].space = seals[c].space /\ seals[p].pn = seals[c].pn /\ seals[a].aad = seals[c].aad
\* A nonce is never used twice with a key.
NonceOnce == \A i \in I, j \in I : (i # j /\ seals[i].space = seals[j].space) =>
               Nonce(KeysOfSpace[seals[i].space].iv, seals[i].pn) # Nonce(KeysOfSpace[seals[j].space].iv, seals[j].pn)
\* Every bit of the number is in the nonce, at the end.
NonceShape == \A j \in I : LET iv == KeysOfSpace[seals[j].space].iv n == Nonce(iv, seals[j].pn)
                           IN  /\ Len(n) = 12 /\ XorSeq(n, iv) = Zeros(4) \o seals[j].pn

Emit == ("EMIT" \in DOMAIN IOEnv /\ seals # <<>>) => PrintT(<<"BEHAVIOUR", ToJson([k |-> "seal", seals |-> seals])>>)
=============================================================================

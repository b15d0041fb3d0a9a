----------------------------- MODULE MCSchedule -----------------------------
(***************************************************************************)
(* The keys of a connection: what both ends derive from the destination id *)
(* of the first packet, and from the secrets of the handshake.  Hashing is *)
(* ideal: outputs are terms that say what they were derived from, so that  *)
(* different derivations never agree by accident.                          *)
(* With EMIT=1 every state is printed and the keys of the code compared    *)
(* with those of an independent implementation.                            *)
(***************************************************************************)
EXTENDS KeySchedule, FiniteSets, TLC, Json, IOUtils
CONSTANTS Letters, MaxFree, Lengths
VARIABLES id, secret
vars == <<id, secret>>

TermExtract(o, salt, ikm) == Got([prk |-> <<"extract", salt, ikm>>], 0)
TermExpand(o, prk, label, n) == Got([out |-> <<"expand", prk, Info(label, n)>>], 0)

\* All ids of a few bytes, and longer ones that differ from them as little as possible
Uniform(d) == \A i \in 1..Len(d) : d[i] = d[1]
Init == /\ id \in {<<>>} \cup {[i \in 1..n |-> x] : n \in Lengths, x \in Letters}
        /\ secret \in {<<>>} \cup {<<<<"secret", x>>>> : x \in 0..3}
Next == /\ UNCHANGED secret
        /\ \/ Len(id) < MaxFree /\ \E x \in Letters : id' = Append(id, x)
           \/ Len(id) >= MaxFree /\ \E i \in 1..Len(id) : \E x \in Letters : id[i] # x /\ Uniform(id) /\ id' = [id EXCEPT ![i] = x]
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
No == [none |-> 0]
Sides == {"client", "server"}
KeysAt(side, d) == InitialKeys(No, side, d).v
\* What an end has: keys to send with and to receive with
End(side, d) == [local |-> KeysAt(side, d), remote |-> KeysAt(Other(side), d)]
\* The two ends agree, in both directions.
Agree == /\ End("client", id).local = End("server", id).remote
         /\ End("server", id).local = End("client", id).remote
\* No key serves two purposes or two directions.
All(d) == {KeysAt(s, d)[f] : s \in Sides, f \in {"key", "iv", "hp"}}
Separate == Cardinality(All(id)) = 6
\* Ids that differ, if only by a zero in front or at the end, have nothing in common.
Neighbours == {Append(id, 0), <<0>> \o id, Zeros(20), <<>>}
              \cup (IF id = <<>> THEN {} ELSE {Tail(id), SubSeq(id, 1, Len(id) - 1), [id EXCEPT ![1] = (@ + 1) % 256]})
OwnKeys == \A d \in Neighbours \ {id} : All(d) \cap All(id) = {}
\* Neither have keys of the handshake, whose secrets come from elsewhere.
Later == secret # <<>> => LET k == KeysOf(No, secret[1]).v
                          IN  /\ Cardinality({k.key, k.iv, k.hp}) = 3 /\ {k.key, k.iv, k.hp} \cap All(id) = {}

Emit == "EMIT" \in DOMAIN IOEnv =>
    PrintT(<<"BEHAVIOUR", ToJson([k |-> "schedule", id |-> id, secret |-> IF secret = <<>> THEN <<>> ELSE <<secret[1][2]>>])>>)
=============================================================================

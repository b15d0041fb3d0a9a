--------------------------- MODULE MCNegotiation --------------------------
(***************************************************************************)
(* A server that writes version negotiation packets, version by version,   *)
(* and a network that cuts them or adds to them.                           *)
(***************************************************************************)
EXTENDS Packets, Json, IOUtils, TLC
CONSTANTS FirstBytes, Lengths, MaxVersions
VARIABLES b, d, s, vs, end
vars == <<b, d, s, vs, end>>
SomeFirst == {128, 192, 240}
MoreFirst == 128..255
SomeLengths == {<<0, 0>>, <<0, 8>>, <<8, 0>>, <<1, 20>>, <<20, 20>>, <<21, 3>>, <<8, 21>>, <<255, 1>>, <<2, 255>>}
MoreLengths == ({0, 1, 8, 19, 20, 21, 64} \X {0, 1, 8, 19, 20, 21, 64}) \cup {<<255, 255>>, <<255, 0>>, <<0, 255>>}
Versions == {<<0, 0, 0, 1>>, <<0, 0, 0, 0>>, <<10, 26, 42, 58>>}
Id(n, k) == [i \in 1..n |-> ((i * 7) + k) % 256]
Header == [long |-> TRUE, b |-> b, version |-> <<0, 0, 0, 0>>, type |-> "vn", dcid |-> Id(d, 1), scid |-> Id(s, 5)]
Whole == EncodeHeader(Header) \o FlattenSeq(vs)
\* end: bytes missing (negative), or added
Bs == IF end < 0 THEN SubSeq(Whole, 1, Len(Whole) + end) ELSE Whole \o Id(end, 9)

Init == b \in FirstBytes /\ (\E l \in Lengths : d = l[1] /\ s = l[2]) /\ vs = <<>> /\ end \in {-5, -4, -3, -1, 0, 1, 2, 3}
Next == Len(vs) < MaxVersions /\ \E v \in Versions : vs' = Append(vs, v) /\ UNCHANGED <<b, d, s, end>>
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* no keys are needed
D == DecodeDatagram(Bs, <<>>, <<>>)
X == D.v[1]
ReadsBack == end = 0 => /\ D.ok /\ Len(D.v) = 1
                        /\ X.versions = vs /\ X.dcid = Id(d, 1) /\ X.scid = Id(s, 5)
NothingElse == D.ok => Len(D.v) = 1 /\ X.kind = "vn" /\ EncodeHeader(Header) \o FlattenSeq(X.versions) = Bs
WholeVersions == D.ok <=> /\ Len(Bs) >= 7 + d + s
                          /\ (Len(Bs) - (7 + d + s)) % 4 = 0
Emit == "EMIT" \in DOMAIN IOEnv =>
    PrintT(<<"BEHAVIOUR", ToJson([k |-> "negotiation", bs |-> Bs, must |-> end = 0 /\ vs # <<>>,
                                  versions |-> IF D.ok THEN <<X.versions>> ELSE <<>>])>>)
=============================================================================

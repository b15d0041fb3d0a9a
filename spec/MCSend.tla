------------------------------- MODULE MCSend -------------------------------
(***************************************************************************)
(* A connection builds a packet, frame by frame, and sends it; its peer is *)
(* anywhere between the acknowledged packet number and the one before this *)
(* one.  Cryptography is ideal, as in MCChannel.  Every packet, with each  *)
(* length of packet number that is safe, is read by the peer as what it    *)
(* is, by the peer only, alone and after another packet.                   *)
(* With EMIT=1 every packet is printed, to be sent by the real code.       *)
(***************************************************************************)
EXTENDS Packets, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxFrames, Powers
VARIABLES kind, pn, acked, at, ids, token, fs
vars == <<kind, pn, acked, at, ids, token, fs>>

TotalMask(o, hp, s) ==
    Got([mask |-> [i \in 1..5 |-> ((hp[1] * 31 * i) + (s[i] * 7) + (s[i + 5] * 3) + (s[16] * 5) + (11 * i)) % 256]], 1)
KeysOfSpace == [s \in Spaces |-> LET k == CASE s = "initial" -> 1 [] s = "handshake" -> 2 [] s = "app" -> 3
                                 IN  [key |-> <<k>>, iv |-> [i \in 1..12 |-> 10 * k + i], hp |-> <<100 + k>>]]
Elsewhere == [s \in Spaces |-> <<[KeysOfSpace[s] EXCEPT !.key = <<@[1] + 10>>]>>]

\* Packet numbers at the edges of the windows
Pow(e) == [i \in 1..8 |-> IF i = 8 - (e \div 8) THEN 2 ^ (e % 8) ELSE 0]
One == LenU64(1)
Less1(x) == PN!PnSub(x, One)
Around(x) == {Less1(x), x, PN!PnAdd(x, One)}
Numbers == UNION {Around(Pow(e)) : e \in Powers} \ {U64Zero}
\* What is acknowledged: nothing, the one before, or so long ago that some length gets unsafe
Distances == {One} \cup UNION {Around(PN!HalfWindow(n)) : n \in 1..4}
AckedFor(x) == {<<>>} \cup {<<PN!PnSub(x, d)>> : d \in {d \in Distances : PN!PnLeq(d, x)}}
\* Where the peer is: at the acknowledged number, at the one before this, between
AtFor(x, a) == IF a = <<>> THEN {<<>>, <<Less1(x)>>}
               ELSE {a, <<Less1(x)>>} \cup {<<y>> : y \in {y \in {Less1(Less1(x))} : x # One /\ PN!PnLess(a[1], y)}}
SafeLengths(x, a) == {n \in 1..4 : PN!SafeLength(x, a, n)}

\* lengths of destination and source id
Ids == {<<8, 8>>, <<0, 1>>, <<20, 20>>, <<1, 5>>}
Id(n) == [i \in 1..n |-> 16 * n + i]
Tokens == {<<>>, <<<<>>>>, <<<<5>>>>, <<[i \in 1..70 |-> i]>>}
Ping == [t |-> "ping"]
Padding == [t |-> "padding"]
Crypto(o, d) == [t |-> "crypto", off |-> o, len |-> LenU64(Len(d)), data |-> d]
Ack == [t |-> "ack", largest |-> Pow(14), delay |-> U64Zero, count |-> One, first |-> U64Zero,
        ranges |-> <<One, Pow(6)>>, ecn |-> <<>>]
Close == [t |-> "close", err |-> LenU64(10), ftype |-> <<LenU64(6)>>, len |-> LenU64(2), data |-> <<1, 2>>, app |-> FALSE]
\* around the change from a length of one byte to two bytes, 63 - 16 - 4 bytes of payload, too
FrameSet == {Ping, Padding, Ack, Close, Crypto(U64Zero, <<>>), Crypto(Pow(30), <<255>>)}
            \cup {Crypto(U64Zero, [i \in 1..k |-> i]) : k \in 39..44}

Init == /\ kind \in {"initial", "handshake"} /\ pn \in Numbers
        /\ acked = <<>> /\ at = <<>> /\ ids = <<>> /\ token = <<>> /\ fs = <<>>
Situate == /\ ids = <<>>
           /\ \E a \in AckedFor(pn) : /\ SafeLengths(pn, a) # {}
                                      /\ acked' = a
                                      /\ at' \in AtFor(pn, a)
           /\ ids' \in Ids
           /\ token' \in IF kind = "initial" /\ ids' = <<8, 8>> THEN Tokens ELSE {<<>>}
           /\ fs' = <<Crypto(U64Zero, <<9>>)>>
           /\ UNCHANGED <<kind, pn>>
\* The situations of interest with other frames; the product of both would be too large.
Plain == ids = <<8, 8>> /\ Len(acked) = 1 /\ at = <<Less1(pn)>> /\ pn = PN!PnAdd(acked[1], One)
Frame == /\ Plain
         /\ \/ Len(fs) = 1 /\ fs' \in {<<f>> : f \in FrameSet}
            \/ Len(fs) < MaxFrames /\ token = <<>> /\ \E f \in FrameSet : fs' = Append(fs, f)
         /\ UNCHANGED <<kind, pn, acked, at, ids, token>>
Next == Situate \/ Frame
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Pt == EncodeFrames(fs, FALSE)
X(n) == [type |-> kind, bits |-> 0, version |-> Version1, dcid |-> Id(ids[1]), scid |-> Id(ids[2]),
         token |-> IF token = <<>> THEN <<>> ELSE token[1], pn |-> pn, n |-> n, pt |-> Pt, lf |-> 1, tf |-> 1]
Ct(x) == [j \in 1..(Len(x.pt) + TagLen) |-> ((x.n * 37) + (j * 11)) % 256]
K == KeysOfSpace[SpaceOf(kind)]
O(x) == [masks |-> <<>>,
         sealed |-> <<[key |-> K.key, nonce |-> Nonce(K.iv, x.pn), aad |-> PacketHead(x), ct |-> Ct(x), pt |-> x.pt]>>]
W(x) == OnWire(x, Ct(x), TotalMask(O(x), K.hp, PacketSample(x, Ct(x))).v.mask)
Peer(keys) == [keys |-> keys, largest |-> [s \in Spaces |-> IF s = SpaceOf(kind) THEN at ELSE <<>>]]
Own == [s \in Spaces |-> <<KeysOfSpace[s]>>]
\* long enough for a sample whatever the length of the packet number
Lengths == IF ids = <<>> THEN {} ELSE {n \in SafeLengths(pn, acked) : Len(Pt) + n >= 4}
Is(y, x) == /\ y.kind = kind /\ y.pn = pn /\ y.token = x.token /\ y.frames = fs /\ y.dcid = x.dcid /\ y.scid = x.scid
            /\ y.version = Version1 /\ y.b = FirstByte(x)

Arrives == \A n \in Lengths : LET x == X(n) d == DecodeDatagram(W(x), Peer(Own), O(x))
                              IN  d.ok /\ Len(d.v) = 1 /\ Is(d.v[1], x)
\* Its length field is exact: another packet can follow, and nothing may be missing.
Exact == \A n \in Lengths : LET x == X(n) w == W(x) d == DecodeDatagram(w \o w, Peer(Own), O(x))
                            IN  /\ d.ok /\ Len(d.v) = 2 /\ Is(d.v[2], x)
                                /\ ~DecodeDatagram(SubSeq(w, 1, Len(w) - 1), Peer(Own), O(x)).ok
\* Whoever has other keys cannot read it.
Private == \A n \in Lengths : LET x == X(n) IN ~DecodeDatagram(W(x), Peer(Elsewhere), O(x)).ok
\* A number in reach of nobody who may be listening is never the only choice.
SomeLength == ids # <<>> => SafeLengths(pn, acked) # {}

Emit == ("EMIT" \in DOMAIN IOEnv /\ ids # <<>>) =>
    PrintT(<<"BEHAVIOUR", ToJson([k |-> "send", kind |-> kind, pn |-> pn, acked |-> acked, at |-> at, dcid |-> Id(ids[1]),
                                  scid |-> Id(ids[2]), token |-> token, fs |-> fs, pt |-> Pt])>>)
=============================================================================

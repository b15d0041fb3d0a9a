----------------------------- MODULE MCChannel -----------------------------
(***************************************************************************)
(* A peer protects packets; the network puts them together to datagrams,   *)
(* alters, cuts, repeats them and adds its own bytes; the receiver decodes. *)
(* Cryptography is ideal: masks are some function of key and sample, and   *)
(* exactly what the peer sealed opens.  Datagrams of up to MaxParts parts, *)
(* at most one of them altered, at every byte position.                    *)
(* With EMIT=1 every datagram is printed as instructions (which packets,   *)
(* which alterations) with its meaning, to be carried out with real keys   *)
(* on the real code: positions and lengths are the same there.             *)
(***************************************************************************)
EXTENDS Packets, TLC, Json, IOUtils
CONSTANTS MaxParts, Flips, AllForms
VARIABLES parts, dirty
vars == <<parts, dirty>>

\* Some function of key and sample, instead of the points of an oracle.
TotalMask(o, hp, s) ==
    Got([mask |-> [i \in 1..5 |-> ((hp[1] * 31 * i) + (s[i] * 7) + (s[i + 5] * 3) + (s[16] * 5) + (11 * i)) % 256]], 1)

Dcid == <<9, 8, 7, 6, 5, 4, 3, 2>>
Scid == <<1, 2, 3>>
KeysOfSpace == [s \in Spaces |-> LET k == CASE s = "initial" -> 1 [] s = "handshake" -> 2 [] s = "app" -> 3
                                 IN  [key |-> <<k>>, iv |-> [i \in 1..12 |-> 10 * k + i], hp |-> <<100 + k>>]]
Largest == [initial |-> <<>>, handshake |-> <<LenU64(290)>>, app |-> <<LenU64(65600)>>]
Receiver == [keys |-> [s \in Spaces |-> <<KeysOfSpace[s]>>], largest |-> Largest]

PnOf(type) == CASE type = "initial" -> LenU64(5) [] type = "handshake" -> LenU64(300) [] OTHER -> LenU64(65540)
Payload(k) == IF k = 1 THEN <<6, 0, 3, 1, 2, 3>> ELSE <<1, 0, 0, 0, 1>>
\* All combinations, as a sequence: the number of a packet is its index.
Basic == {[type |-> t, bits |-> 0, version |-> Version1, dcid |-> Dcid, scid |-> IF t = "onertt" THEN <<>> ELSE Scid,
           token |-> k, pn |-> PnOf(t), n |-> n, pt |-> Payload(p), lf |-> f, tf |-> f] :
            t \in {"initial", "zerortt", "handshake", "onertt"}, k \in {<<>>, <<77, 78>>}, n \in 1..4,
            p \in {1, 2}, f \in AllForms}
Sent == SetToSeq({x \in Basic : /\ x.type # "initial" => x.token = <<>>
                                /\ x.type = "onertt" => x.lf = 1
                                \* a 0-RTT packet has no CRYPTO frame
                                /\ x.type = "zerortt" => x.pt = Payload(2)
                                /\ (x.n % 2 = 0 /\ x.type # "zerortt") => x.pt = Payload(1)})
CtOf(i) == [j \in 1..(Len(Sent[i].pt) + TagLen) |-> ((i * 37) + (j * 11)) % 256]
O == [masks |-> <<>>,
      sealed |-> [i \in 1..Len(Sent) |->
        LET k == KeysOfSpace[SpaceOf(Sent[i].type)]
        IN  [key |-> k.key, nonce |-> Nonce(k.iv, Sent[i].pn), aad |-> PacketHead(Sent[i]), ct |-> CtOf(i), pt |-> Sent[i].pt]]]
Wire == [i \in 1..Len(Sent) |->
           LET k == KeysOfSpace[SpaceOf(Sent[i].type)]
           IN  OnWire(Sent[i], CtOf(i), TotalMask(O, k.hp, PacketSample(Sent[i], CtOf(i))).v.mask)]

\* Parts: packet number i, or bytes (i = 0).  Cut: bytes left out at the end.  at, with: a byte changed.
Clean(i) == [i |-> i, cut |-> 0, at |-> 0, with |-> 0, raw |-> <<>>]
Alterations(i) ==
    {[Clean(i) EXCEPT !.at = a, !.with = w] : a \in 1..Len(Wire[i]), w \in Flips}
    \cup {[Clean(i) EXCEPT !.cut = k] : k \in 1..(Len(Wire[i]) - 1)}
RawBytes == {<<0>>, Zeros(5), <<64, 1, 2, 3>>, <<64>> \o Zeros(40), <<192, 0, 0, 0, 1>>,
             <<128, 0, 0, 0, 0, 0, 0>>,                                   \* version negotiation, no version
             <<255, 0, 0, 0, 0, 1, 5, 2, 6, 7, 0, 0, 0, 1, 9, 9, 9, 9>>,   \* with two versions
             <<240, 0, 0, 0, 1, 1, 5, 0>> \o [j \in 1..20 |-> j]}           \* Retry
Noise == {[Clean(0) EXCEPT !.raw = r] : r \in RawBytes}

BytesOf(p) ==
    IF p.i = 0 THEN p.raw
    ELSE LET w == Wire[p.i]
         IN  [j \in 1..(Len(w) - p.cut) |-> IF j = p.at THEN Xor(w[j], p.with) ELSE w[j]]
RECURSIVE Datagram(_)
Datagram(ps) == IF ps = <<>> THEN <<>> ELSE BytesOf(Head(ps)) \o Datagram(Tail(ps))

\* A few packets that others are put together with.
Some == {i \in 1..Len(Sent) : Sent[i].n = 2 /\ Sent[i].lf = 1 /\ Sent[i].token = <<>>}

Init == parts = <<>> /\ dirty = FALSE
Add(p, d) == parts' = Append(parts, p) /\ dirty' = (dirty \/ d)
Next ==
    /\ Len(parts) < MaxParts
    /\ \A k \in 1..Len(parts) : parts[k].i \in Some \cup {0} \/ Len(parts) = 1
    /\ \/ \E i \in (IF dirty THEN Some ELSE 1..Len(Sent)) : Add(Clean(i), FALSE)
       \/ ~dirty /\ \E i \in (IF parts = <<>> THEN 1..Len(Sent) ELSE Some) : \E p \in Alterations(i) : Add(p, TRUE)
       \/ ~dirty /\ \E p \in Noise : Add(p, TRUE)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
D == DecodeDatagram(Datagram(parts), Receiver, O)
\* x is packet i as the peer made it.
Is(x, i) == /\ x.kind = Sent[i].type /\ x.pn = Sent[i].pn /\ x.token = Sent[i].token
            /\ x.frames = DecodeFrames(Sent[i].pt).v /\ x.dcid = Sent[i].dcid /\ x.scid = Sent[i].scid
            /\ x.b = FirstByte(Sent[i]) /\ x.pnbytes = PN!Truncate(Sent[i].pn, Sent[i].n)
OneRttInside == \E k \in 1..(Len(parts) - 1) : parts[k].i # 0 /\ Sent[parts[k].i].type = "onertt"

\* Datagrams put together by conforming senders arrive complete and in order.
Arrives == (~dirty /\ ~OneRttInside) =>
             /\ D.ok /\ Len(D.v) = Len(parts)
             /\ \A k \in 1..Len(parts) : Is(D.v[k], parts[k].i)
\* Only what the peer sent is ever accepted (version negotiation is not protected).
Authentic == D.ok => \A k \in 1..Len(D.v) :
               D.v[k].kind = "vn" \/ \E j \in 1..Len(parts) : parts[j].i # 0 /\ Is(D.v[k], parts[j].i)
\* An altered packet is never accepted, and spoils its datagram, unless what it became is
\* a version negotiation packet.
Spoilt == (dirty /\ D.ok) => \/ \E k \in 1..Len(D.v) : D.v[k].kind = "vn"
                             \/ parts = <<>>
\* A 1-RTT packet takes the rest of the datagram, so that nothing can follow it.
NothingAfterOneRtt == (~dirty /\ OneRttInside) => ~D.ok
\* Nothing is delivered twice out of one copy.
NotMore == D.ok => Len(D.v) <= Len(parts)

Emit == ("EMIT" \in DOMAIN IOEnv /\ parts # <<>>) =>
    PrintT(<<"BEHAVIOUR", ToJson([k |-> "channel", parts |-> [j \in 1..Len(parts) |->
                 [x |-> IF parts[j].i = 0 THEN <<>> ELSE <<Sent[parts[j].i]>>, cut |-> parts[j].cut, at |-> parts[j].at,
                  with |-> parts[j].with, raw |-> parts[j].raw]],
              dirty |-> dirty, ok |-> D.ok,
              \* per packet read: which part it is (0: version negotiation)
              got |-> IF D.ok THEN [k \in 1..Len(D.v) |-> IF D.v[k].kind = "vn" THEN 0
                                       ELSE CHOOSE j \in 1..Len(parts) : parts[j].i # 0 /\ Is(D.v[k], parts[j].i)] ELSE <<>>])>>)
=============================================================================

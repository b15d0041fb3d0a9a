------------------------------ MODULE Packets ------------------------------
(***************************************************************************)
(* Protected packets and datagrams (RFC 9000 sections 12 and 17, RFC 9001  *)
(* section 5).  Cryptography is ideal: o.masks and o.sealed are the graphs *)
(* of the header protection function and of the AEAD, restricted to the    *)
(* points that matter: [hp, sample, mask] and [key, nonce, aad, ct, pt].   *)
(* What is not in o.sealed was not sealed by anybody and does not open.    *)
(*                                                                         *)
(* The receiving connection c is [keys, largest], both records over the    *)
(* packet number spaces; an absent key or number is <<>>, a present one is *)
(* a sequence of one element.  Keys are [key, iv, hp].                     *)
(***************************************************************************)
EXTENDS Headers, Frames

PN == INSTANCE PacketNumbers WITH Base <- 256, Size <- 8,
                                  Top <- <<64, 0, 0, 0, 0, 0, 0, 0>>

Spaces == {"initial", "handshake", "app"}
SpaceOf(type) == CASE type = "initial" -> "initial"
                   [] type = "handshake" -> "handshake"
                   [] type \in {"zerortt", "onertt"} -> "app"

TagLen == 16
SampleLen == 16
MaxPnLen == 4

Nonce(iv, pn) == XorSeq(iv, PadLeft(pn, Len(iv)))

Mask(o, hp, sample) == LET P(e) == e.hp = hp /\ e.sample = sample IN First(o.masks, P)
Open(o, key, nonce, aad, ct) ==
    LET P(e) == e.key = key /\ e.nonce = nonce /\ e.aad = aad /\ e.ct = ct
    IN  First(o.sealed, P)

\* The protected bits of the first byte.
HiddenBits(long) == IF long THEN 4 ELSE 5
Unmask(b, long, m) == Xor(b, LowBits(m, HiddenBits(long)))

\* Fails with why = "oracle" when the mask of a needed sample is unknown: nothing can be
\* said then.
FailFor(why) == [ok |-> FALSE, why |-> why]

\* From header to payload: where token, length field and packet number are.
LayoutAt(bs, h) ==
    LET token == IF h.v.type = "initial" THEN BlobAt(bs, h.p) ELSE Got(<<>>, h.p) IN
    IF ~token.ok THEN Fail
    ELSE LET len == IF h.v.type = "onertt" THEN Got(LenU64(Len(bs) - token.p + 1), token.p)
                    ELSE VarIntAt(bs, token.p) IN
    IF ~len.ok THEN Fail
    ELSE IF ~Has(bs, len.p, AsLen(len.v)) THEN Fail
    ELSE Got([token |-> token.v, pnoff |-> len.p, len |-> AsLen(len.v)], len.p + AsLen(len.v))

ProtectedAt(bs, p, h, c, o) ==
    LET l == LayoutAt(bs, h) IN
    IF ~l.ok THEN FailFor("layout")
    ELSE IF l.v.len < MaxPnLen + SampleLen THEN FailFor("sample")
    ELSE LET keys == c.keys[SpaceOf(h.v.type)] IN
    IF keys = <<>> THEN FailFor("keys")
    ELSE LET k == keys[1]
             off == l.v.pnoff
             m == Mask(o, k.hp, SubSeq(bs, off + MaxPnLen, off + MaxPnLen + SampleLen - 1)) IN
    IF ~m.ok THEN FailFor("oracle")
    ELSE LET b == Unmask(bs[p], h.v.long, m.v.mask[1])
             n == (b % 4) + 1
             pnbytes == [i \in 1..n |-> Xor(bs[off + i - 1], m.v.mask[i + 1])]
             pn == PN!Reconstruct(c.largest[SpaceOf(h.v.type)], pnbytes)
             aad == <<b>> \o SubSeq(bs, p + 1, off - 1) \o pnbytes
             ct == SubSeq(bs, off + n, l.p - 1)
             pt == Open(o, k.key, Nonce(k.iv, pn), aad, ct) IN
    IF ~pt.ok THEN FailFor("auth")
    ELSE LET fs == DecodeFrames(pt.v.pt) IN
    IF ~fs.ok THEN FailFor("frames")
    ELSE Got([kind |-> h.v.type, b |-> b,
              header |-> EncodeHeader([h.v EXCEPT !.b = b]),
              dcid |-> h.v.dcid, scid |-> h.v.scid, version |-> h.v.version,
              token |-> l.v.token, pn |-> pn, pnbytes |-> pnbytes,
              frames |-> fs.v, versions |-> <<>>], l.p)

\* A version negotiation packet: a list of versions up to the end of the datagram.
NegotiationAt(bs, p, h) ==
    LET n == Len(bs) - h.p + 1 IN
    IF n % 4 # 0 THEN FailFor("versions")
    ELSE Got([kind |-> "vn", b |-> h.v.b, header |-> EncodeHeader(h.v),
              dcid |-> h.v.dcid, scid |-> h.v.scid, version |-> h.v.version,
              token |-> <<>>, pn |-> U64Zero, pnbytes |-> <<>>, frames |-> <<>>,
              versions |-> [i \in 1..(n \div 4) |-> SubSeq(bs, h.p + 4 * i - 4, h.p + 4 * i - 1)]],
             Len(bs) + 1)

PacketAt(bs, p, c, o) ==
    LET h == HeaderAt(bs, p) IN
    IF ~h.ok THEN FailFor("header")
    ELSE CASE h.v.type = "vn" -> NegotiationAt(bs, p, h)
           [] h.v.type = "retry" -> FailFor("retry")     \* not supported
           [] OTHER -> ProtectedAt(bs, p, h, c, o)

RECURSIVE PacketsFrom(_, _, _, _, _)
PacketsFrom(bs, p, c, o, acc) ==
    IF p > Len(bs) THEN Got(acc, p)
    ELSE LET x == PacketAt(bs, p, c, o)
         IN  IF ~x.ok THEN x ELSE PacketsFrom(bs, x.p, c, o, Append(acc, x.v))

\* A datagram is a sequence of packets; one bad packet spoils it.
DecodeDatagram(bs, c, o) == PacketsFrom(bs, 1, c, o, <<>>)

------------------------------------------------------------------------------
(* Writing: what a conforming peer produces for one packet.  x is [type,   *)
(* bits, version, dcid, scid, token, pn, n, pt, lf, tf]; bits are the      *)
(* reserved bits and, in a short header, spin bit and key phase, where     *)
(* they are in the first byte; lf and tf are the least sizes of the length *)
(* fields of packet and token.                                             *)

FirstByte(x) == x.bits + (x.n - 1)
                + (CASE x.type = "initial" -> 192 [] x.type = "zerortt" -> 208
                     [] x.type = "handshake" -> 224 [] x.type = "onertt" -> 64)
AtLeast(u, n) == EncodeAs(u, IF n > VarIntLen(u) THEN n ELSE VarIntLen(u))
\* Header up to the packet number.
PacketStart(x) ==
    EncodeHeader([long |-> x.type # "onertt", b |-> FirstByte(x), version |-> x.version, dcid |-> x.dcid, scid |-> x.scid])
      \o (IF x.type = "initial" THEN AtLeast(LenU64(Len(x.token)), x.tf) \o x.token ELSE <<>>)
      \o (IF x.type = "onertt" THEN <<>> ELSE AtLeast(LenU64(x.n + Len(x.pt) + TagLen), x.lf))
\* The associated data.
PacketHead(x) == PacketStart(x) \o PN!Truncate(x.pn, x.n)
\* On the wire, given the sealed payload and the mask of its sample.
PacketSample(x, ct) == SubSeq(ct, MaxPnLen - x.n + 1, MaxPnLen - x.n + SampleLen)
OnWire(x, ct, mask) ==
    LET s == PacketStart(x)
        t == PN!Truncate(x.pn, x.n)
    IN  <<Xor(s[1], LowBits(mask[1], HiddenBits(x.type # "onertt")))>> \o Tail(s)
          \o [i \in 1..x.n |-> Xor(t[i], mask[i + 1])] \o ct

------------------------------------------------------------------------------
(* Packets that are well-formed and authentic, but that RFC 9000 lets or   *)
(* makes a receiver refuse.  The library accepts them today.               *)

EarlyFrames == {"padding", "ping", "ack", "crypto"}
FrameAllowed(f, kind) ==
    CASE kind \in {"initial", "handshake"} -> f.t \in EarlyFrames \/ (f.t = "close" /\ ~f.app)
      [] kind = "zerortt" -> f.t \notin {"ack", "crypto", "new_token", "path_response",
                                         "retire_cid", "handshake_done"}
      [] OTHER -> TRUE

PacketRefusable(x) ==
    IF x.kind = "vn" THEN x.versions = <<>>
    ELSE \/ x.frames = <<>>
         \/ ~Bit(x.b, 6)
         \/ (x.b \div (IF x.kind = "onertt" THEN 8 ELSE 4)) % 4 # 0
         \/ (x.kind # "onertt" /\ x.version # Version1)
         \/ \E i \in 1..Len(x.frames) :
               Refusable(x.frames[i]) \/ ~FrameAllowed(x.frames[i], x.kind)

DatagramRefusable(xs) ==
    \/ xs = <<>>
    \/ \E i \in 1..Len(xs) : PacketRefusable(xs[i]) \/ xs[i].dcid # xs[1].dcid
=============================================================================

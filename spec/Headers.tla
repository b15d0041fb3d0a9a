------------------------------ MODULE Headers ------------------------------
(***************************************************************************)
(* Packet headers (RFC 9000, section 17; RFC 8999 for version negotiation) *)
(* up to and including the connection ids.  Connection ids issued by this  *)
(* implementation have 8 bytes, so a short header has an 8-byte id.        *)
(***************************************************************************)
EXTENDS VarInt

VersionNegotiation == <<0, 0, 0, 0>>
Version1 == <<0, 0, 0, 1>>
IssuedIdLen == 8
MaxIdLen == 20

LongType(b, version) ==
    IF version = VersionNegotiation THEN "vn"
    ELSE CASE (b \div 16) % 4 = 0 -> "initial"
           [] (b \div 16) % 4 = 1 -> "zerortt"
           [] (b \div 16) % 4 = 2 -> "handshake"
           [] (b \div 16) % 4 = 3 -> "retry"

\* A connection id with its length byte in front.
IdAt(bs, p, max) ==
    IF ~Has(bs, p, 1) THEN Fail
    ELSE IF bs[p] > max THEN Fail
    ELSE Take(bs, p + 1, bs[p])

LongHeaderAt(bs, p) ==
    LET ver == Take(bs, p + 1, 4) IN
    IF ~ver.ok THEN Fail
    ELSE LET max == IF ver.v = VersionNegotiation THEN 255 ELSE MaxIdLen
             d == IdAt(bs, ver.p, max) IN
    IF ~d.ok THEN Fail
    ELSE LET s == IdAt(bs, d.p, max) IN
    IF ~s.ok THEN Fail
    ELSE Got([long |-> TRUE, b |-> bs[p], type |-> LongType(bs[p], ver.v), version |-> ver.v,
              dcid |-> d.v, scid |-> s.v], s.p)

ShortHeaderAt(bs, p) ==
    LET d == Take(bs, p + 1, IssuedIdLen) IN
    IF ~d.ok THEN Fail
    ELSE Got([long |-> FALSE, b |-> bs[p], type |-> "onertt", version |-> VersionNegotiation,
              dcid |-> d.v, scid |-> <<>>], d.p)

HeaderAt(bs, p) ==
    IF p > Len(bs) THEN Fail
    ELSE IF bs[p] >= 128 THEN LongHeaderAt(bs, p) ELSE ShortHeaderAt(bs, p)

\* Writing.
EncodeHeader(h) ==
    IF h.long
    THEN <<h.b>> \o h.version \o <<Len(h.dcid)>> \o h.dcid \o <<Len(h.scid)>> \o h.scid
    ELSE <<h.b>> \o h.dcid

\* RFC 9000 has packets with a zero fixed bit discarded; this library does not look at it
\* yet, and may start to.
FixedBit(h) == h.type = "vn" \/ Bit(h.b, 6)

\* The 8-byte id the datagram is addressed to, if it can be one of ours.
RoutingId(bs) ==
    LET h == HeaderAt(bs, 1) IN
    IF ~h.ok THEN Fail
    ELSE IF Len(h.v.dcid) # IssuedIdLen THEN Fail
    ELSE Got(h.v.dcid, h.p)
=============================================================================

---------------------------- MODULE KeySchedule ----------------------------
(***************************************************************************)
(* Keys (RFC 9001, sections 5.1 and 5.2).  HMAC is ideal: o.extract and    *)
(* o.expand are the graphs of HKDF-Extract and HKDF-Expand restricted to   *)
(* the points that matter, [salt, ikm, prk] and [prk, info, out]; o.expand *)
(* outputs are exactly as long as the length in info.                      *)
(***************************************************************************)
EXTENDS Bytes

\* 0x38762cf7f55934b34d179ae6a4c80cadccbb7f0a
InitialSalt == <<56, 118, 44, 247, 245, 89, 52, 179, 77, 23, 154, 230, 164, 200, 12, 173,
                 204, 187, 127, 10>>

\* ASCII
Tls13 == <<116, 108, 115, 49, 51, 32>>                        \* "tls13 "
ClientIn == <<99, 108, 105, 101, 110, 116, 32, 105, 110>>     \* "client in"
ServerIn == <<115, 101, 114, 118, 101, 114, 32, 105, 110>>    \* "server in"
QuicKey == <<113, 117, 105, 99, 32, 107, 101, 121>>           \* "quic key"
QuicIv == <<113, 117, 105, 99, 32, 105, 118>>                 \* "quic iv"
QuicHp == <<113, 117, 105, 99, 32, 104, 112>>                 \* "quic hp"

\* HkdfLabel of TLS 1.3: length, label, empty context.
Info(label, n) == <<n \div 256, n % 256, Len(Tls13) + Len(label)>> \o Tls13 \o label \o <<0>>

Extract(o, salt, ikm) ==
    LET P(e) == e.salt = salt /\ e.ikm = ikm IN First(o.extract, P)
ExpandLabel(o, secret, label, n) ==
    LET P(e) == e.prk = secret /\ e.info = Info(label, n) IN First(o.expand, P)

KeysOf(o, secret) ==
    LET k == ExpandLabel(o, secret, QuicKey, 16)
        i == ExpandLabel(o, secret, QuicIv, 12)
        h == ExpandLabel(o, secret, QuicHp, 16)
    IN  IF k.ok /\ i.ok /\ h.ok
        THEN Got([key |-> k.v.out, iv |-> i.v.out, hp |-> h.v.out], 0) ELSE Fail

\* Keys that side "client" or "server" seals Initial packets with, for the destination id
\* of the first Initial packet of the client.
InitialKeys(o, side, dcid) ==
    LET e == Extract(o, InitialSalt, dcid) IN
    IF ~e.ok THEN Fail
    ELSE LET s == ExpandLabel(o, e.v.prk, IF side = "client" THEN ClientIn ELSE ServerIn, 32) IN
    IF ~s.ok THEN Fail ELSE KeysOf(o, s.v.out)

Other(side) == IF side = "client" THEN "server" ELSE "client"
=============================================================================

------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Which observations of the implementation the specification allows.      *)
(* An event is what one call on the real code was given and what came      *)
(* back: out is "ok", "err" or "panic" ("hang", "abort" when the call did  *)
(* not come back).  Verdict(e) is "ok", or says what is wrong with it;     *)
(* "oracle" means that the event lacks a point of an ideal function, so    *)
(* nothing can be concluded.                                               *)
(***************************************************************************)
EXTENDS Packets, Labels, Fields, TransportParams, TLC

Returned(e) == e.out \in {"ok", "err"}
Answer(cond, why) == IF cond THEN "ok" ELSE why

------------------------------------------------------------------------------
(* Variable-length integers *)

JEncodeInt(e) ==
    IF Encodable(e.x) THEN Answer(e.out = "ok" /\ e.bs = EncodeVarInt(e.x), "wrong encoding")
    ELSE Answer(e.out = "err", "integer too large for the encoding was not refused")

JDecodeInt(e) ==
    LET x == VarIntAt(e.bs, 1) IN
    IF x.ok THEN Answer(e.out = "ok" /\ e.x = x.v /\ e.used = x.p - 1, "wrong integer")
    ELSE Answer(e.out = "err", "incomplete integer was not refused")

------------------------------------------------------------------------------
(* Frames *)

AllRefusable(fs) == \E i \in 1..Len(fs) : Refusable(fs[i])

\* The type of each frame is in its shortest form, as RFC 9000 requires of senders.
ShortTypesFrom(bs, from) ==
    LET Step(st, i) ==
            IF ~st.ok \/ st.p > Len(bs) THEN st
            ELSE LET f == FrameAt(bs, st.p)
                 IN  IF f.ok /\ bs[st.p] < 64 THEN [ok |-> TRUE, p |-> f.p] ELSE [ok |-> FALSE, p |-> st.p]
    IN  FoldLeft(Step, [ok |-> TRUE, p |-> from], [i \in 1..Len(bs) |-> i]).ok

JParse(e) ==
    LET x == DecodeFrames(e.bs) IN
    IF x.ok
    THEN IF e.out = "ok" THEN Answer(e.frames = x.v, "misread frames")
         ELSE Answer(/\ e.out = "err"
                     /\ x.v = <<>> \/ AllRefusable(x.v) \/ ~ShortTypesFrom(e.bs, 1),
                     "valid frames were refused")
    ELSE Answer(e.out = "err", "invalid frames were not refused")

JSerialize(e) ==
    IF \E i \in 1..Len(e.frames) : ~FrameEncodable(e.frames[i])
    THEN Answer(e.out = "err", "integer too large for a frame was not refused")
    ELSE IF e.out = "err" THEN Answer(AllRefusable(e.frames), "valid frames were not written")
    ELSE IF e.out # "ok" THEN "no result"
    ELSE IF DecodeFrames(e.bs) # Got(e.frames, Len(e.bs) + 1) THEN "written bytes mean something else"
    ELSE IF ~ShortTypesFrom(e.bs, 1) THEN "frame type not in its shortest form"
    ELSE IF ~e.end /\ DecodeFrames(e.bs \o <<1>>)
                        # Got(Append(e.frames, [t |-> "ping"]), Len(e.bs) + 2)
    THEN "frames run into what follows them"
    ELSE IF e.own.out = "ok" THEN Answer(e.own.frames = e.frames, "own parser disagrees")
    ELSE Answer(e.own.out = "err" /\ (e.frames = <<>> \/ AllRefusable(e.frames)),
                "own parser refuses")

------------------------------------------------------------------------------
(* Headers *)

SameId(id, len, bs20) == len = Len(id) /\ (Len(id) <= 20 => bs20 = PadLeft(id, 20))

JHeader(e) ==
    LET x == HeaderAt(e.bs, 1) IN
    IF ~x.ok THEN Answer(e.out = "err", "invalid header was not refused")
    ELSE IF e.out = "err" THEN Answer(~FixedBit(x.v), "valid header was refused")
    ELSE IF e.out # "ok" THEN "no result"
    ELSE IF e.long # x.v.long \/ e.type # x.v.type THEN "wrong packet type"
    ELSE IF x.v.long /\ e.version # x.v.version THEN "wrong version"
    ELSE IF ~SameId(x.v.dcid, e.dlen, e.dcid) THEN "wrong destination id"
    ELSE IF x.v.long /\ ~SameId(x.v.scid, e.slen, e.scid) THEN "wrong source id"
    ELSE Answer(e.bytes = SubSeq(e.bs, 1, x.p - 1), "written back differently")

------------------------------------------------------------------------------
(* Packet numbers *)

JReconstruct(e) ==
    Answer(e.out = "ok" /\ e.pn = PN!Reconstruct(e.largest, e.t), "wrong packet number")

\* bytes: the truncated number handed out for pn
TruncationAllowed(pn, acked, out, bytes) ==
    LET safe4 == IF acked = <<>> THEN PN!PnLess(pn, PN!Window(4))
                 ELSE /\ PN!PnLess(acked[1], pn)
                      /\ PN!PnLess(PN!PnSub(pn, acked[1]), PN!HalfWindow(4))
    IN  IF out = "ok" /\ Len(bytes) \in 1..4
        THEN PN!SafeLength(pn, acked, Len(bytes)) /\ bytes = PN!Truncate(pn, Len(bytes))
        ELSE out \in {"ok", "err"} /\ ~safe4
JTruncate(e) ==
    IF e.out = "ok" /\ e.pn # e.want THEN "wrong packet number"
    ELSE Answer(TruncationAllowed(e.want, e.acked, e.out, e.bytes), "unsafe truncation")

------------------------------------------------------------------------------
(* Packets and datagrams *)

\* A decoded packet v, as projected from the library, is the packet x.
SamePacket(v, x) ==
    /\ v.kind = x.kind
    /\ v.header = x.header
    /\ SameId(x.dcid, v.dlen, v.dcid)
    /\ SameId(x.scid, v.slen, v.scid)
    /\ v.token = x.token
    /\ v.pn = x.pn
    /\ v.pnbytes = x.pnbytes
    /\ v.frames = x.frames
    /\ v.versions = x.versions

SamePackets(vs, xs) ==
    Len(vs) = Len(xs) /\ \A i \in 1..Len(vs) : SamePacket(vs[i], xs[i])

\* e.must: the datagram was made by a conforming peer, so it has to be accepted;
\* e.forged: no peer made it, so nothing protected in it may be accepted.
JDecode(e) ==
    LET x == DecodeDatagram(e.bs, e.conn, e.o) IN
    IF ~x.ok
    THEN IF x.why = "oracle" THEN "oracle"
         ELSE IF e.must THEN "oracle"
         \* too short for a header protection sample: a sender must not, a receiver may
         ELSE IF x.why = "sample" /\ ~e.forged THEN Answer(Returned(e), "no result")
         ELSE Answer(e.out = "err", "a datagram that is not valid was accepted")
    ELSE IF e.forged /\ (\E i \in 1..Len(x.v) : x.v[i].kind # "vn") THEN "oracle"
    ELSE IF e.out = "ok" THEN Answer(SamePackets(e.packets, x.v), "misread packets")
    ELSE Answer(e.out = "err" /\ (e.may \/ (~e.must /\ DatagramRefusable(x.v))), "a valid datagram was refused")

\* e.sent was protected by the library and accepted by its peer.  e.bs, not longer than it,
\* differs from it, or comes to somebody else (e.same).
JForge(e) ==
    IF Len(e.bs) > Len(e.sent) \/ (e.bs = e.sent) # e.same THEN "oracle"
    ELSE Answer(/\ e.out \in {"ok", "err"}
                /\ \A i \in 1..Len(e.packets) : e.packets[i].kind = "vn",
                "a packet that nobody sent was accepted")

\* A packet built from frames, token and next packet number on a connection, and sent.
\* e.peer is what a conforming peer's receiving state is, e.own what the library's own
\* receiving side made of it.
JSend(e) ==
    IF e.out = "err" THEN
        Answer(\/ \E i \in 1..Len(e.frames) : ~FrameEncodable(e.frames[i])
                                           \/ Refusable(e.frames[i])
                                           \/ ~FrameAllowed(e.frames[i], e.kind)
               \/ e.frames = <<>>
               \/ Len(EncodeFrames(e.frames, FALSE)) < 3   \* too short for a sample
               \/ ~e.possible,
               "a packet was not sent")
    ELSE IF e.out # "ok" THEN "no result"
    ELSE IF ~e.possible THEN "sent without keys or with an unsafe packet number"
    ELSE LET x == DecodeDatagram(e.bs, e.peer, e.o) IN
    IF ~x.ok THEN IF x.why = "oracle" THEN "oracle" ELSE "a peer cannot read the packet"
    ELSE IF Len(x.v) # 1 THEN "not one packet"
    ELSE LET y == x.v[1] IN
    IF \/ y.kind # e.kind \/ y.version # Version1 \/ y.dcid # e.dcid \/ y.scid # e.scid
       \/ y.token # e.token \/ y.pn # e.pn \/ y.frames # e.frames
    THEN "a peer reads something else"
    ELSE IF y.b \div 64 # 3 \/ (y.b \div 4) % 4 # 0 THEN "fixed or reserved bits are wrong"
    ELSE IF e.own.out = "ok" THEN Answer(SamePackets(e.own.packets, x.v), "own receiver disagrees")
    ELSE Answer(e.own.out = "err" /\ DatagramRefusable(x.v), "own receiver refuses")

------------------------------------------------------------------------------
(* Keys and payload protection *)

JInitialKeys(e) ==
    LET mine == InitialKeys(e.o, e.side, e.dcid)
        theirs == InitialKeys(e.o, Other(e.side), e.dcid) IN
    IF ~mine.ok \/ ~theirs.ok THEN "oracle"
    ELSE IF e.out # "ok" THEN "no keys"
    ELSE IF e.local # mine.v THEN "wrong keys to send with"
    ELSE IF e.remote # theirs.v THEN "wrong keys to receive with"
    ELSE Answer(mine.v # theirs.v, "both directions share keys")

JSecretKeys(e) ==
    LET k == KeysOf(e.o, e.secret) IN
    IF ~k.ok THEN "oracle" ELSE Answer(e.out = "ok" /\ e.keys = k.v, "wrong keys")

\* Sealing pt under packet number pn and associated data aad.
JSeal(e) ==
    LET n == Nonce(e.keys.iv, e.pn)
        P(s) == s.key = e.keys.key /\ s.nonce = n /\ s.aad = e.aad /\ s.pt = e.pt
        s == First(e.o.sealed, P) IN
    IF ~s.ok THEN "oracle"
    ELSE IF e.out # "ok" THEN "not sealed"
    ELSE IF e.ct # s.v.ct THEN "wrong ciphertext"
    ELSE IF Len(e.ct) # Len(e.pt) + TagLen \/ e.announced # Len(e.ct) THEN "wrong length"
    ELSE "ok"

JOpen(e) ==
    LET x == Open(e.o, e.keys.key, Nonce(e.keys.iv, e.pn), e.aad, e.ct) IN
    IF x.ok THEN Answer(e.out = "ok" /\ e.pt = x.v.pt, "not opened to the payload")
    ELSE Answer(e.out = "err", "opened what nobody sealed")

JMask(e) ==
    LET x == Mask(e.o, e.keys.hp, SubSeq(e.sample, 1, SampleLen)) IN
    IF Len(e.sample) < SampleLen THEN Answer(e.out = "err", "mask of a short sample")
    ELSE IF ~x.ok THEN "oracle"
    ELSE Answer(e.out = "ok" /\ e.mask = x.v.mask, "wrong mask")

\* Derivation with labels
JExpand(e) ==
    IF ~Derivable(e.secret, e.label, e.context, e.n)
    THEN Answer(e.out = "err", "an impossible derivation was not refused")
    ELSE LET x == HkdfExpandLabel(e.o, e.secret, e.label, e.context, e.n) IN
    IF ~x.ok THEN "oracle" ELSE Answer(e.out = "ok" /\ e.v = x.v, "wrong derivation")
JExtract(e) ==
    LET x == HkdfExtract(e.o, e.salt, e.ikm) IN
    IF ~x.ok THEN "oracle" ELSE Answer(e.out = "ok" /\ e.v = x.v, "wrong extraction")

------------------------------------------------------------------------------
(* Fields *)

\* A list of fields read from a stream; got are the values up to the first failure.
JFields(e) ==
    LET r == ReadFields(e.bs, e.bad, e.fs) IN
    IF ~Returned(e) THEN "no result"
    ELSE IF (e.out = "ok") # r.ok THEN IF r.ok THEN "a field was refused" ELSE "a field was read that is not there"
    ELSE IF e.got # r.v THEN "wrong value"
    ELSE Answer(r.ok => e.used = r.p - 1, "wrong count of bytes")
\* One field read from a slice
JSlice(e) ==
    LET x == FieldAt(e.bs, 0, 1, e.f) IN
    IF x.ok THEN Answer(e.out = "ok" /\ e.v = x.v /\ e.used = x.p - 1, "wrong value")
    ELSE Answer(e.out = "err", "a field was read that is not there")
JId(e) ==
    IF e.out # "ok" THEN "no result"
    ELSE IF e.full # e.id THEN "wrong bytes of an id"
    ELSE IF e.eq # (e.id = e.other) THEN "ids compared wrongly"
    ELSE Answer(IdFits(e.id, e.n) => e.bs = IdBytes(e.id, e.n), "id written wrongly")

------------------------------------------------------------------------------
(* Transport parameters *)

JParams(e) ==
    IF \E i \in 1..Len(e.params) : ~ParamEncodable(e.params[i])
    THEN Answer(e.out = "err", "value that does not fit was not refused")
    ELSE IF e.out = "err"
    THEN Answer(\E i \in 1..Len(e.params) : ParamRefusable(e.params[i]), "valid value was refused")
    ELSE Answer(e.out = "ok" /\ DecodeParams(e.bs) = Got(e.params, Len(e.bs) + 1),
                "written bytes mean something else")

------------------------------------------------------------------------------
(* Totality and memory *)

JTotal(e) == Answer(Returned(e), "did not return")

\* Memory in use at most during the call, in bytes, for n received bytes: decoded frames
\* take a few hundred bytes per received byte at worst.
MemoryPerByte == 2048
MemoryBase == 65536
JMemory(e) == Answer(Returned(e) /\ e.peak <= MemoryBase + MemoryPerByte * e.n,
                     "memory out of proportion")

------------------------------------------------------------------------------
Verdict(e) ==
    CASE e.k = "vi_enc" -> JEncodeInt(e)
      [] e.k = "vi_dec" -> JDecodeInt(e)
      [] e.k = "parse" -> JParse(e)
      [] e.k = "ser" -> JSerialize(e)
      [] e.k = "header" -> JHeader(e)
      [] e.k = "recon" -> JReconstruct(e)
      [] e.k = "trunc" -> JTruncate(e)
      [] e.k = "decode" -> JDecode(e)
      [] e.k = "forge" -> JForge(e)
      [] e.k = "send" -> JSend(e)
      [] e.k = "keys" -> JInitialKeys(e)
      [] e.k = "secret" -> JSecretKeys(e)
      [] e.k = "seal" -> JSeal(e)
      [] e.k = "open" -> JOpen(e)
      [] e.k = "mask" -> JMask(e)
      [] e.k = "params" -> JParams(e)
      [] e.k = "expand" -> JExpand(e)
      [] e.k = "extract" -> JExtract(e)
      [] e.k = "fields" -> JFields(e)
      [] e.k = "slice" -> JSlice(e)
      [] e.k = "id" -> JId(e)
      [] e.k = "total" -> JTotal(e)
      [] e.k = "memory" -> JMemory(e)
=============================================================================

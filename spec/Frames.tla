------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The frame layer (RFC 9000, section 19): which list of frames a packet   *)
(* payload is, and which payloads mean a given list of frames.  A frame is *)
(* a record with the type in field t; integers are 8-byte strings.         *)
(***************************************************************************)
EXTENDS VarInt, FiniteSets, SequencesExt

FrameTypes == 0..30

\* k integers in a row.
RECURSIVE IntsAt(_, _, _)
IntsAt(bs, p, k) ==
    IF k = 0 THEN Got(<<>>, p)
    ELSE LET x == VarIntAt(bs, p)
         IN  IF ~x.ok THEN Fail
             ELSE LET r == IntsAt(bs, x.p, k - 1)
                  IN  IF ~r.ok THEN Fail ELSE Got(<<x.v>> \o r.v, r.p)

\* An integer n and then n bytes.
BlobAt(bs, p) ==
    LET n == VarIntAt(bs, p)
    IN  IF ~n.ok THEN Fail ELSE Take(bs, n.p, AsLen(n.v))

------------------------------------------------------------------------------
(* Reading.  Each operator reads the body of a frame, after its type.      *)

AckAt(bs, p, ecn) ==
    LET h == IntsAt(bs, p, 4) IN
    IF ~h.ok THEN Fail
    ELSE IF AsLen(h.v[3]) > Len(bs) THEN Fail    \* not enough bytes for the ranges
    ELSE LET r == IntsAt(bs, h.p, 2 * AsLen(h.v[3])) IN
    IF ~r.ok THEN Fail
    ELSE LET e == IntsAt(bs, r.p, IF ecn THEN 3 ELSE 0) IN
    IF ~e.ok THEN Fail
    ELSE Got([t |-> "ack", largest |-> h.v[1], delay |-> h.v[2], count |-> h.v[3],
              first |-> h.v[4], ranges |-> r.v, ecn |-> e.v], e.p)

CryptoAt(bs, p) ==
    LET o == VarIntAt(bs, p) IN
    IF ~o.ok THEN Fail
    ELSE LET d == BlobAt(bs, o.p) IN
    IF ~d.ok THEN Fail
    ELSE Got([t |-> "crypto", off |-> o.v, len |-> LenU64(Len(d.v)), data |-> d.v], d.p)

NewTokenAt(bs, p) ==
    LET d == BlobAt(bs, p) IN
    IF ~d.ok THEN Fail
    ELSE Got([t |-> "new_token", len |-> LenU64(Len(d.v)), data |-> d.v], d.p)

\* ty is the type byte 8..15: bit 2 OFF, bit 1 LEN, bit 0 FIN.
StreamAt(bs, p, ty) ==
    LET id == VarIntAt(bs, p) IN
    IF ~id.ok THEN Fail
    ELSE LET o == IF Bit(ty, 2) THEN VarIntAt(bs, id.p) ELSE Got(U64Zero, id.p) IN
    IF ~o.ok THEN Fail
    ELSE LET d == IF Bit(ty, 1) THEN BlobAt(bs, o.p) ELSE Got(Rest(bs, o.p), Len(bs) + 1) IN
    IF ~d.ok THEN Fail
    ELSE Got([t |-> "stream", id |-> id.v, off |-> o.v, len |-> LenU64(Len(d.v)),
              data |-> d.v, fin |-> Bit(ty, 0)], d.p)

NewCidAt(bs, p) ==
    LET h == IntsAt(bs, p, 2) IN
    IF ~h.ok THEN Fail
    ELSE IF ~Has(bs, h.p, 1) \/ bs[h.p] < 1 \/ bs[h.p] > 20 THEN Fail
    ELSE LET c == Take(bs, h.p + 1, bs[h.p]) IN
    IF ~c.ok THEN Fail
    ELSE LET t == Take(bs, c.p, 16) IN
    IF ~t.ok THEN Fail
    ELSE Got([t |-> "new_cid", seq |-> h.v[1], retire |-> h.v[2], len |-> LenU64(bs[h.p]),
              cid |-> PadLeft(c.v, 20), token |-> t.v], t.p)

CloseAt(bs, p, app) ==
    LET h == IntsAt(bs, p, IF app THEN 1 ELSE 2) IN
    IF ~h.ok THEN Fail
    ELSE LET d == BlobAt(bs, h.p) IN
    IF ~d.ok THEN Fail
    ELSE Got([t |-> "close", err |-> h.v[1], ftype |-> IF app THEN <<>> ELSE <<h.v[2]>>,
              len |-> LenU64(Len(d.v)), data |-> d.v, app |-> app], d.p)

\* A frame of integer fields only.
PlainAt(bs, p, k, F(_)) ==
    LET x == IntsAt(bs, p, k) IN IF ~x.ok THEN Fail ELSE Got(F(x.v), x.p)

PathAt(bs, p, t) ==
    LET d == Take(bs, p, 8) IN IF ~d.ok THEN Fail ELSE Got([t |-> t, v |-> d.v], d.p)

BodyAt(bs, p, ty) ==
    CASE ty = 0 -> Got([t |-> "padding"], p)
      [] ty = 1 -> Got([t |-> "ping"], p)
      [] ty \in {2, 3} -> AckAt(bs, p, ty = 3)
      [] ty = 4 -> LET F(v) == [t |-> "reset_stream", id |-> v[1], err |-> v[2], size |-> v[3]]
                   IN  PlainAt(bs, p, 3, F)
      [] ty = 5 -> LET F(v) == [t |-> "stop_sending", id |-> v[1], err |-> v[2]]
                   IN  PlainAt(bs, p, 2, F)
      [] ty = 6 -> CryptoAt(bs, p)
      [] ty = 7 -> NewTokenAt(bs, p)
      [] ty \in 8..15 -> StreamAt(bs, p, ty)
      [] ty = 16 -> LET F(v) == [t |-> "max_data", v |-> v[1]] IN PlainAt(bs, p, 1, F)
      [] ty = 17 -> LET F(v) == [t |-> "max_stream_data", id |-> v[1], v |-> v[2]]
                    IN  PlainAt(bs, p, 2, F)
      [] ty \in {18, 19} -> LET F(v) == [t |-> "max_streams", v |-> v[1], uni |-> ty = 19]
                            IN  PlainAt(bs, p, 1, F)
      [] ty = 20 -> LET F(v) == [t |-> "data_blocked", v |-> v[1]] IN PlainAt(bs, p, 1, F)
      [] ty = 21 -> LET F(v) == [t |-> "stream_data_blocked", id |-> v[1], v |-> v[2]]
                    IN  PlainAt(bs, p, 2, F)
      [] ty \in {22, 23} -> LET F(v) == [t |-> "streams_blocked", v |-> v[1], uni |-> ty = 23]
                            IN  PlainAt(bs, p, 1, F)
      [] ty = 24 -> NewCidAt(bs, p)
      [] ty = 25 -> LET F(v) == [t |-> "retire_cid", seq |-> v[1]] IN PlainAt(bs, p, 1, F)
      [] ty = 26 -> PathAt(bs, p, "path_challenge")
      [] ty = 27 -> PathAt(bs, p, "path_response")
      [] ty \in {28, 29} -> CloseAt(bs, p, ty = 29)
      [] ty = 30 -> Got([t |-> "handshake_done"], p)
      [] OTHER -> Fail

FrameAt(bs, p) ==
    LET ty == VarIntAt(bs, p)
    IN  IF ~ty.ok THEN Fail ELSE BodyAt(bs, ty.p, AsLen(ty.v))

\* The whole payload from position p on.
\* A fold over as many steps as there could be frames: TLC evaluates it in constant depth.
FramesFrom(bs, from) ==
    LET Step(st, i) ==
            IF ~st.ok \/ st.p > Len(bs) THEN st
            ELSE LET f == FrameAt(bs, st.p)
                 IN  IF ~f.ok THEN [ok |-> FALSE, p |-> st.p, v |-> <<>>]
                     ELSE [ok |-> TRUE, p |-> f.p, v |-> Append(st.v, f.v)]
        end == FoldLeft(Step, [ok |-> TRUE, p |-> from, v |-> <<>>],
                        [i \in 1..(Len(bs) - from + 1) |-> i])
    IN  IF end.ok THEN Got(end.v, end.p) ELSE Fail

DecodeFrames(bs) == FramesFrom(bs, 1)

------------------------------------------------------------------------------
(* Writing.  W chooses the form of each integer; the shortest one is the   *)
(* canonical choice.                                                       *)

IntsBy(us, W(_)) == Flat([i \in 1..Len(us) |-> W(us[i])])
BlobBy(d, W(_)) == W(LenU64(Len(d))) \o d

StreamType(f, withLen) == 8 + (IF f.off # U64Zero THEN 4 ELSE 0)
                            + (IF withLen THEN 2 ELSE 0) + (IF f.fin THEN 1 ELSE 0)

\* last: the frame ends the payload and may leave out its length.
EncodeFrameBy(f, last, W(_)) ==
    CASE f.t = "padding" -> <<0>>
      [] f.t = "ping" -> <<1>>
      [] f.t = "ack" -> <<IF f.ecn = <<>> THEN 2 ELSE 3>>
                          \o IntsBy(<<f.largest, f.delay, f.count, f.first>>, W)
                          \o IntsBy(f.ranges, W) \o IntsBy(f.ecn, W)
      [] f.t = "reset_stream" -> <<4>> \o IntsBy(<<f.id, f.err, f.size>>, W)
      [] f.t = "stop_sending" -> <<5>> \o IntsBy(<<f.id, f.err>>, W)
      [] f.t = "crypto" -> <<6>> \o W(f.off) \o BlobBy(f.data, W)
      [] f.t = "new_token" -> <<7>> \o BlobBy(f.data, W)
      [] f.t = "stream" -> <<StreamType(f, ~last)>> \o W(f.id)
                             \o (IF f.off # U64Zero THEN W(f.off) ELSE <<>>)
                             \o (IF last THEN f.data ELSE BlobBy(f.data, W))
      [] f.t = "max_data" -> <<16>> \o W(f.v)
      [] f.t = "max_stream_data" -> <<17>> \o IntsBy(<<f.id, f.v>>, W)
      [] f.t = "max_streams" -> <<IF f.uni THEN 19 ELSE 18>> \o W(f.v)
      [] f.t = "data_blocked" -> <<20>> \o W(f.v)
      [] f.t = "stream_data_blocked" -> <<21>> \o IntsBy(<<f.id, f.v>>, W)
      [] f.t = "streams_blocked" -> <<IF f.uni THEN 23 ELSE 22>> \o W(f.v)
      [] f.t = "new_cid" -> <<24>> \o IntsBy(<<f.seq, f.retire>>, W) \o <<AsLen(f.len)>>
                              \o SubSeq(f.cid, 21 - AsLen(f.len), 20) \o f.token
      [] f.t = "retire_cid" -> <<25>> \o W(f.seq)
      [] f.t = "path_challenge" -> <<26>> \o f.v
      [] f.t = "path_response" -> <<27>> \o f.v
      [] f.t = "close" -> <<IF f.app THEN 29 ELSE 28>> \o W(f.err)
                            \o IntsBy(f.ftype, W) \o BlobBy(f.data, W)
      [] f.t = "handshake_done" -> <<30>>
EncodeFrame(f, last) == EncodeFrameBy(f, last, EncodeVarInt)

EncodeFrames(fs, end) ==
    Flat([i \in 1..Len(fs) |-> EncodeFrame(fs[i], end /\ i = Len(fs))])

\* The integers of a frame that travel in variable-length form.
VarInts(f) ==
    CASE f.t = "ack" -> <<f.largest, f.delay, f.count, f.first>> \o f.ranges \o f.ecn
      [] f.t = "reset_stream" -> <<f.id, f.err, f.size>>
      [] f.t = "stop_sending" -> <<f.id, f.err>>
      [] f.t = "crypto" -> <<f.off>>
      [] f.t = "stream" -> <<f.id, f.off>>
      [] f.t \in {"max_data", "max_streams", "data_blocked", "streams_blocked"} -> <<f.v>>
      [] f.t \in {"max_stream_data", "stream_data_blocked"} -> <<f.id, f.v>>
      [] f.t = "new_cid" -> <<f.seq, f.retire>>
      [] f.t = "retire_cid" -> <<f.seq>>
      [] f.t = "close" -> <<f.err>> \o f.ftype
      [] OTHER -> <<>>
FrameEncodable(f) == \A i \in 1..Len(VarInts(f)) : Encodable(VarInts(f)[i])

------------------------------------------------------------------------------
(* Frames that are well-formed but that RFC 9000 lets or makes a receiver  *)
(* refuse for their meaning.  The library does not look at the meaning     *)
(* yet; refusing these would be right as well.                             *)

\* The ranges of an ACK frame go below packet number 0: smallest is the smallest number
\* of the ranges read so far, ranges[i] the next gap.
RECURSIVE AckUnderflows(_, _, _)
AckUnderflows(smallest, ranges, i) ==
    IF i > Len(ranges) THEN FALSE
    ELSE LET step == AddU(AddU(ranges[i], ranges[i + 1]), LenU64(2))
         IN  \/ LessU(smallest, step)
             \/ AckUnderflows(SubU(smallest, step), ranges, i + 2)

Refusable(f) ==
    CASE f.t = "ack" -> \/ LessU(f.largest, f.first)
                          \/ AckUnderflows(SubU(f.largest, f.first), f.ranges, 1)
      [] f.t = "new_token" -> f.data = <<>>
      [] f.t = "new_cid" -> LessU(f.seq, f.retire)
      [] f.t \in {"max_streams", "streams_blocked"} -> LessU(<<16, 0, 0, 0, 0, 0, 0, 0>>, f.v)
      [] f.t \in {"crypto", "stream"} -> ~Encodable(AddU(f.off, f.len))
      [] OTHER -> FALSE
=============================================================================

------------------------------ MODULE MCBytes ------------------------------
(***************************************************************************)
(* A peer that writes any bytes: all strings over an alphabet, up to a     *)
(* length, read as frames, as header and as integer.  Reading is total;    *)
(* what is read can be written and means the same; a reader never goes     *)
(* beyond the end, and never finds more frames than there are bytes.       *)
(* With EMIT=1 every string is printed with its meaning, to be replayed.   *)
(***************************************************************************)
EXTENDS Frames, Headers, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxLen   \* MaxLen: how many bytes after the beginning
VARIABLES bs, left

\* Nothing, every first byte, and the beginnings of headers, of ACK frames with ranges and of
\* frames with data, so that the interesting part follows.
Starts == {<<>>} \cup {<<x>> : x \in Byte}
          \cup {<<b>> \o v : b \in {128, 208, 240}, v \in {Version1, VersionNegotiation}}
          \cup {<<192, 0, 0, 0, 1, 0>>, <<224, 0, 0, 0, 1, 1, 9>>, <<255, 0, 0, 0, 0, 21>> \o [i \in 1..21 |-> i]}
          \cup {<<64>> \o Zeros(7), <<2, 9, 1, 1>>, <<3, 9, 1, 0, 1>>, <<3, 64, 9, 1, 1, 2>>, <<6, 1, 2>>, <<24, 1, 1, 2>>, <<24, 1, 1, 1, 9>> \o Zeros(14),
                <<28, 1, 2>>, <<14, 1, 1>>, <<10, 64, 1>>, <<26>> \o Zeros(6), <<4, 64, 1, 128, 0, 0, 0>>}

Init == bs \in Starts /\ left = MaxLen
Next == left > 0 /\ left' = left - 1 /\ \E x \in Alphabet : bs' = Append(bs, x)
Spec == Init /\ [][Next]_<<bs, left>>

F == DecodeFrames(bs)
H == HeaderAt(bs, 1)
I == VarIntAt(bs, 1)

FramesMeanTheSame ==
    F.ok => /\ Len(F.v) <= Len(bs)
            /\ \A i \in 1..Len(F.v) : FrameEncodable(F.v[i])
            /\ DecodeFrames(EncodeFrames(F.v, FALSE)).v = F.v
            /\ DecodeFrames(EncodeFrames(F.v, TRUE)).v = F.v
\* The data in frames is data of the payload.
Carried(f) == IF f.t \in {"crypto", "stream", "new_token", "close"} THEN Len(f.data) ELSE 0
RECURSIVE CarriedFrom(_, _)
CarriedFrom(fs, i) == IF i > Len(fs) THEN 0 ELSE Carried(fs[i]) + CarriedFrom(fs, i + 1)
NothingFromNowhere == F.ok => CarriedFrom(F.v, 1) + Len(F.v) <= Len(bs)
\* A header is written back as it was, and does not depend on what follows it.
HeaderIsItself ==
    H.ok => /\ EncodeHeader(H.v) = SubSeq(bs, 1, H.p - 1)
            /\ H.p <= Len(bs) + 1
            /\ HeaderAt(SubSeq(bs, 1, H.p - 1), 1) = H
            /\ H.v.long \/ Len(H.v.dcid) = IssuedIdLen
\* A proper beginning of a header is not a header.
NoShorterHeader == H.ok => \A k \in 0..(H.p - 2) : ~HeaderAt(SubSeq(bs, 1, k), 1).ok
IntegerIsItself ==
    I.ok => /\ I.p <= Len(bs) + 1
            /\ Encodable(I.v)
            /\ EncodeAs(I.v, I.p - 1) = SubSeq(bs, 1, I.p - 1)
            /\ VarIntAt(EncodeVarInt(I.v), 1) = Got(I.v, VarIntLen(I.v) + 1)
            /\ VarIntLen(I.v) <= I.p - 1

\* Meaning of the string, for the harness: integer, header, frames.
Opt(x) == IF x.ok THEN <<x.v>> ELSE <<>>
Emit == ("EMIT" \in DOMAIN IOEnv) =>
    PrintT(<<"BEHAVIOUR", ToJson([k |-> "bytes", bs |-> bs, int |-> IF I.ok THEN <<[x |-> I.v, used |-> I.p - 1]>> ELSE <<>>,
                                  header |-> IF H.ok THEN <<[h |-> H.v, used |-> H.p - 1]>> ELSE <<>>,
                                  frames |-> Opt(F)])>>)
=============================================================================

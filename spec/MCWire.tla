------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* All payloads of up to MaxFrames frames from a domain with the boundary  *)
(* values of every field, in all forms: the wire format is unambiguous.    *)
(* With EMIT=1 every payload is also printed with its meaning, to be       *)
(* replayed on the code.                                                   *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils
CONSTANT MaxFrames

\* 0, 63, 64, 2^14 - 1, 2^14, 2^30 - 1, 2^30, 2^62 - 1
Ints == {U64Zero, U64(<<63>>), U64(<<64>>), U64(<<63, 255>>), U64(<<64, 0>>), U64(<<63, 255, 255, 255>>),
         U64(<<64, 0, 0, 0>>), <<63, 255, 255, 255, 255, 255, 255, 255>>}
Few == {U64Zero, U64(<<64>>), <<63, 255, 255, 255, 255, 255, 255, 255>>}
Two == {U64(<<1>>), U64(<<64, 0, 0, 0>>)}
Data == {<<>>, <<0>>, <<30, 255>>, [i \in 1..64 |-> 1]}
Ids == {<<7>>, <<1, 2, 3, 4, 5, 6, 7, 255>>, [i \in 1..20 |-> 128 + i]}
Bools == {TRUE, FALSE}
Token == [i \in 1..16 |-> 240 + i - 1]

Acks == {[t |-> "ack", largest |-> a, delay |-> b, count |-> LenU64(Len(r) \div 2), first |-> c, ranges |-> r, ecn |-> e] :
            a \in Few, b \in Two, c \in Two, r \in {<<>>, <<U64Zero, U64(<<64>>)>>, <<U64(<<1>>), U64Zero, U64(<<63, 255>>), U64(<<5>>)>>},
            e \in {<<>>, <<U64Zero, U64(<<64, 0>>), U64(<<9>>)>>}}
Frames1 ==
    {[t |-> "padding"], [t |-> "ping"], [t |-> "handshake_done"]}
    \cup {[t |-> t, v |-> v] : t \in {"max_data", "data_blocked"}, v \in Ints}
    \cup {[t |-> t, v |-> v, uni |-> u] : t \in {"max_streams", "streams_blocked"}, v \in Ints, u \in Bools}
    \cup {[t |-> t, id |-> i, v |-> v] : t \in {"max_stream_data", "stream_data_blocked"}, i \in Few, v \in Few}
    \cup {[t |-> "retire_cid", seq |-> v] : v \in Ints}
    \cup {[t |-> t, v |-> v] : t \in {"path_challenge", "path_response"}, v \in {Zeros(8), <<1, 2, 3, 4, 5, 6, 7, 255>>}}
    \cup {[t |-> "reset_stream", id |-> a, err |-> b, size |-> c] : a \in Few, b \in Few, c \in Few}
    \cup {[t |-> "stop_sending", id |-> a, err |-> b] : a \in Few, b \in Few}
    \cup {[t |-> "crypto", off |-> o, len |-> LenU64(Len(d)), data |-> d] : o \in Ints, d \in Data}
    \cup {[t |-> "new_token", len |-> LenU64(Len(d)), data |-> d] : d \in Data}
    \cup {[t |-> "stream", id |-> a, off |-> o, len |-> LenU64(Len(d)), data |-> d, fin |-> x] :
            a \in Few, o \in Few, d \in Data, x \in Bools}
    \cup {[t |-> "new_cid", seq |-> a, retire |-> b, len |-> LenU64(Len(c)), cid |-> PadLeft(c, 20), token |-> Token] :
            a \in Few, b \in Two, c \in Ids}
    \cup {[t |-> "close", err |-> a, ftype |-> f, len |-> LenU64(Len(d)), data |-> d, app |-> f = <<>>] :
            a \in Few, f \in {<<>>, <<U64Zero>>, <<U64(<<64>>)>>}, d \in Data}
    \cup Acks
\* One frame of each kind, to be followed by all others.
Heads == {f \in Frames1 : f.t \in {"padding", "ping", "handshake_done"}}
         \cup {CHOOSE f \in Frames1 : f.t = t : t \in
                 {"ack", "reset_stream", "stop_sending", "crypto", "new_token", "stream", "max_data", "max_stream_data",
                  "max_streams", "retire_cid", "path_challenge", "close", "new_cid"}}

Next == /\ Len(fs) < MaxFrames
        /\ fs # <<>> => fs[Len(fs)] \in Heads
        /\ \E f \in Frames1, n \in Forms, last \in Bools : Write(f, n, last)
vars == <<fs, bs, open>>
Spec == Init /\ [][Next]_vars

\* Prints the payloads that are complete.
Emit == ("EMIT" \in DOMAIN IOEnv /\ fs # <<>>) =>
            PrintT(<<"BEHAVIOUR", ToJson([k |-> "frames", bs |-> bs, fs |-> fs,
                                          canon |-> EncodeFrames(fs, FALSE), last |-> EncodeFrames(fs, TRUE)])>>)
=============================================================================

------------------------------ MODULE MCParams ------------------------------
(***************************************************************************)
(* All lists of up to MaxParams transport parameters with boundary values: *)
(* what is written is what is read, and is unambiguous.                    *)
(***************************************************************************)
EXTENDS TransportParams, TLC, Json, IOUtils
CONSTANT MaxParams
VARIABLES ps, bs

Ints == {U64Zero, U64(<<1>>), U64(<<20>>), U64(<<63>>), U64(<<64>>), U64(<<4, 176>>), U64(<<63, 255>>), U64(<<64, 0>>),
         U64(<<63, 255, 255, 255>>), U64(<<64, 0, 0, 0>>), <<63, 255, 255, 255, 255, 255, 255, 255>>}
Blobs == {<<>>, <<1>>, [i \in 1..8 |-> 255], [i \in 1..20 |-> i]}
Params == {[t |-> t, v |-> v] : t \in IntKinds, v \in Ints}
     \cup {[t |-> t, data |-> d] : t \in BlobKinds \ {"stateless_reset_token"}, d \in Blobs}
     \cup {[t |-> "stateless_reset_token", data |-> d] : d \in {Zeros(16), [i \in 1..16 |-> 256 - i]}}
     \cup {[t |-> "disable_active_migration"]}
     \cup {[t |-> "preferred_address", ip4 |-> a, port4 |-> p, ip6 |-> [i \in 1..16 |-> i], port6 |-> q, cid |-> c, token |-> [i \in 1..16 |-> 100 + i]] :
              a \in {<<127, 0, 0, 1>>, <<1, 2, 3, 255>>}, p \in {<<0, 1>>, <<1, 187>>}, q \in {<<1, 0>>, <<255, 254>>}, c \in Blobs}
Heads == {x \in Params : x.t \in {"disable_active_migration"} \/ (x.t \in {"max_idle_timeout", "initial_max_streams_uni"} /\ x.v = U64(<<64, 0>>))
                         \/ (x.t = "initial_source_connection_id" /\ Len(x.data) = 8)}

Init == ps = <<>> /\ bs = <<>>
Next == /\ Len(ps) < MaxParams
        /\ ps # <<>> => ps[Len(ps)] \in Heads
        /\ \E x \in Params : ps' = Append(ps, x) /\ bs' = bs \o EncodeParam(x)
Spec == Init /\ [][Next]_<<ps, bs>>

ReadsBack == DecodeParams(bs) = Got(ps, Len(bs) + 1)
Fit == \A i \in 1..Len(ps) : ParamEncodable(ps[i])
NoShorterReading ==
    ps # <<>> => \A k \in 0..(Len(bs) - 1) :
        LET x == DecodeParams(SubSeq(bs, 1, k)) IN x.ok => Len(x.v) < Len(ps)
Emit == ("EMIT" \in DOMAIN IOEnv /\ ps # <<>>) => PrintT(<<"BEHAVIOUR", ToJson([k |-> "params", ps |-> ps, bs |-> bs])>>)
=============================================================================

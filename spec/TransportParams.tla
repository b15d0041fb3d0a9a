-------------------------- MODULE TransportParams --------------------------
(***************************************************************************)
(* Transport parameters (RFC 9000, section 18): identifier, length, value. *)
(* A parameter is a record with its kind in field t.                       *)
(***************************************************************************)
EXTENDS VarInt

Kinds == << "original_destination_connection_id", "max_idle_timeout", "stateless_reset_token",
            "max_udp_payload_size", "initial_max_data", "initial_max_stream_data_bidi_local",
            "initial_max_stream_data_bidi_remote", "initial_max_stream_data_uni",
            "initial_max_streams_bidi", "initial_max_streams_uni", "ack_delay_exponent",
            "max_ack_delay", "disable_active_migration", "preferred_address",
            "active_connection_id_limit", "initial_source_connection_id",
            "retry_source_connection_id" >>
\* identifiers 0 to 16, in this order
IdOf(t) == (CHOOSE i \in 1..Len(Kinds) : Kinds[i] = t) - 1

IntKinds == {"max_idle_timeout", "max_udp_payload_size", "initial_max_data",
             "initial_max_stream_data_bidi_local", "initial_max_stream_data_bidi_remote",
             "initial_max_stream_data_uni", "initial_max_streams_bidi", "initial_max_streams_uni",
             "ack_delay_exponent", "max_ack_delay", "active_connection_id_limit"}
BlobKinds == {"original_destination_connection_id", "initial_source_connection_id",
              "retry_source_connection_id", "stateless_reset_token"}

\* The value of a parameter from its bytes.
ValueOf(t, bs) ==
    CASE t \in IntKinds ->
            LET x == VarIntAt(bs, 1)
            IN  IF x.ok /\ x.p = Len(bs) + 1 THEN Got([t |-> t, v |-> x.v], 0) ELSE Fail
      [] t \in BlobKinds -> Got([t |-> t, data |-> bs], 0)
      [] t = "disable_active_migration" -> IF bs = <<>> THEN Got([t |-> t], 0) ELSE Fail
      [] t = "preferred_address" ->
            IF Len(bs) < 25 THEN Fail
            ELSE LET n == bs[25] IN
                 IF n > 20 \/ Len(bs) # 25 + n + 16 THEN Fail
                 ELSE Got([t |-> t, ip4 |-> SubSeq(bs, 1, 4), port4 |-> SubSeq(bs, 5, 6),
                           ip6 |-> SubSeq(bs, 7, 22), port6 |-> SubSeq(bs, 23, 24),
                           cid |-> SubSeq(bs, 26, 25 + n),
                           token |-> SubSeq(bs, 26 + n, 41 + n)], 0)

RECURSIVE ParamsFrom(_, _, _)
ParamsFrom(bs, p, acc) ==
    IF p > Len(bs) THEN Got(acc, p)
    ELSE LET id == VarIntAt(bs, p) IN
    IF ~id.ok \/ AsLen(id.v) > 16 THEN Fail
    ELSE LET n == VarIntAt(bs, id.p) IN
    IF ~n.ok THEN Fail
    ELSE LET d == Take(bs, n.p, AsLen(n.v)) IN
    IF ~d.ok THEN Fail
    ELSE LET x == ValueOf(Kinds[AsLen(id.v) + 1], d.v) IN
    IF ~x.ok THEN Fail ELSE ParamsFrom(bs, d.p, Append(acc, x.v))
DecodeParams(bs) == ParamsFrom(bs, 1, <<>>)

EncodeParam(x) ==
    LET v == CASE x.t \in IntKinds -> EncodeVarInt(x.v)
               [] x.t \in BlobKinds -> x.data
               [] x.t = "disable_active_migration" -> <<>>
               [] x.t = "preferred_address" ->
                     x.ip4 \o x.port4 \o x.ip6 \o x.port6 \o <<Len(x.cid)>> \o x.cid \o x.token
    IN  <<IdOf(x.t)>> \o EncodeVarInt(LenU64(Len(v))) \o v

\* A value that fits its field.
ParamEncodable(x) ==
    CASE x.t \in IntKinds -> Encodable(x.v)
      [] x.t = "preferred_address" -> Len(x.cid) <= 20
      [] OTHER -> TRUE
\* Values RFC 9000 forbids to send: refusing them is right as well.
ParamRefusable(x) ==
    CASE x.t = "max_udp_payload_size" -> LessU(x.v, LenU64(1200))
      [] x.t = "ack_delay_exponent" -> LessU(LenU64(20), x.v)
      [] x.t = "max_ack_delay" -> LeqU(LenU64(16384), x.v)
      [] x.t = "active_connection_id_limit" -> LessU(x.v, LenU64(2))
      [] x.t \in {"initial_max_streams_bidi", "initial_max_streams_uni"} ->
            LessU(<<16, 0, 0, 0, 0, 0, 0, 0>>, x.v)
      [] x.t = "preferred_address" -> Len(x.cid) < 1
      [] x.t \in BlobKinds -> Len(x.data) > 20
      [] OTHER -> FALSE
=============================================================================

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Variable-length integers survive encoding and decoding",
  "Every integer below 2^62 is encoded in the shortest of the 1/2/4/8-byte forms, decodes back to itself, and decoding consumes exactly the bytes of that form; integers of 2^62 and above are refused, never truncated. "
  "Decoding accepts any of the four forms (also longer than necessary) with the same meaning, and input that ends inside an integer is an error.",
  ["inputs"], "all 2^64 integers to encode; all byte strings to decode",
  "The single test encodes 0 and 2000; no boundary between forms, no value above 14 bits and no decoding is tested.",
  ["src/utils.rs"],
  [("encode_var_int", "src/utils.rs"), ("var_int_from_stream / var_int_with_bytes_from_stream / decode_var_int", "src/utils.rs")],
  observe=["return values of the encoder and of the three decoders", "bytes left in the stream"],
  hook="re-export of private functions")

p("C02", "Serialized frames mean exactly the frames that were given",
  "For any list of frames, the bytes produced by serialization read, under the QUIC wire format, as exactly that list: same frames, same order, every field intact, nothing before, between or after them, including when the last STREAM frame leaves its length out. "
  "Parsing those bytes with this library gives the same list back.",
  ["inputs"], "all frame lists with all field values, with and without the implicit-length last frame",
  "The test serializes one frame of each type with one small value per field; no lists, no multi-byte fields, offsets or implicit length, and never parses.",
  ["src/frame.rs", "src/utils.rs"],
  [("Frame::to_bytes and the per-frame to_bytes", "src/frame.rs"), ("serialize_frames", "src/frame.rs")],
  observe=["bytes returned by serialize_frames", "frames returned by deserialize_frames on them"],
  hook="building frames from / projecting frames to plain values")

p("C03", "Any frame payload parses to exactly what the wire format says",
  "For every byte string, frame parsing returns the unique list of frames that the QUIC wire format assigns to it, with every field exact and every byte accounted for, or an error when the bytes are not a valid sequence of frames. "
  "Unknown frame types, truncated frames and connection ids outside 1 to 20 bytes are errors, never misread as other frames.",
  ["inputs"], "all byte strings given to the frame parser",
  "Only one CRYPTO frame is ever parsed by a test, at offset 0; no other frame type, flag combination, truncated or malformed input is parsed.",
  ["src/frame.rs", "src/utils.rs"],
  [("deserialize_frame type dispatch", "src/frame.rs"), ("per-frame from_datagram", "src/frame.rs"), ("deserialize_frames", "src/frame.rs")],
  observe=["frames or error returned by deserialize_frames"],
  hook="projecting frames to plain values")

p("C04", "Packet headers are read and re-written without loss",
  "For every datagram, reading the header yields the form, packet type, version and both connection ids (bytes and lengths) that are on the wire, for every connection id length from 0 to 20 (0 to 255 in version negotiation), or an error when the header is truncated or an id is too long. "
  "Writing a header that was read reproduces the same bytes.",
  ["inputs"], "all byte strings read as a header; all long, short and version-negotiation headers",
  "Headers are only read from one sample packet with an 8-byte destination id and no source id; ids beyond 8 bytes, version negotiation and truncation are untested.",
  ["src/packet.rs", "src/utils.rs"],
  [("LongPacketHeader::from_stream/to_bytes", "src/packet.rs"), ("ShortPacketHeader::from_stream/to_bytes", "src/packet.rs"), ("U160 conversion", "src/utils.rs")],
  observe=["header fields, error, and bytes written back", "version list of a version-negotiation packet"],
  hook="projection of header fields")

p("C05", "Truncated packet numbers are recovered exactly by the receiver",
  "Whatever sequence of sends, losses, acknowledgements and reorderings preceded it, a packet number that the sender truncates for the wire is reconstructed by the receiver to the original number, as long as the packet is not reordered behind the newest received one by half of the truncation window or more. "
  "A number that cannot be truncated safely in four bytes is refused by the sender.",
  ["inputs", "histories"], "all packet numbers below 2^62, all largest-acknowledged and largest-received positions, all histories of one packet number space",
  "No test truncates or reconstructs a packet number against an acknowledged or received one.",
  ["src/connection.rs", "src/packet.rs"],
  [("truncate_pn", "src/connection.rs"), ("Connection::reconstruct_remote_pn", "src/connection.rs"), ("per-packet-type use of the reconstructed number", "src/packet.rs")],
  state=[("largest_local_ack", "largest own packet number acknowledged by the peer", "PacketNumberSpaceInfo"), ("largest_remote_ack", "largest packet number processed from the peer", "PacketNumberSpaceInfo")],
  observe=["bytes from get_next_pn", "number from reconstruct_remote_pn", "packet number of decoded packets"],
  hook="setting the acknowledged/received positions, which no code path does yet")

p("C06", "Packet numbers never repeat within a space and spaces are independent",
  "In each packet number space a connection hands out strictly increasing packet numbers, so that no two packets of a space share an encryption nonce, also when building or sending a packet fails in between. "
  "Using, acknowledging or receiving in one space never changes the numbers of another space or of another connection, and an Initial or Handshake packet carries the number it was given, in the length its first byte announces.",
  ["histories"], "all interleavings of packet constructions, failures and acknowledgements over the three spaces of any number of connections",
  "No test asks a connection for a packet number.",
  ["src/connection.rs", "src/packet.rs"],
  [("Connection::get_next_pn", "src/connection.rs"), ("PacketInitial::new / PacketHandshake::new", "src/packet.rs")],
  state=[("next_pn", "last packet number handed out", "PacketNumberSpaceInfo")],
  observe=["packet numbers and truncated bytes returned", "first byte and number of built packets"],
  hook="reading the packet number of a built packet; setting positions")

p("C07", "Sent packets are readable by any conforming peer",
  "For every Initial or Handshake packet built on a connection, the bytes sent are a well-formed QUIC v1 packet that a conforming peer holding the same keys unprotects to the same header, token, packet number and frames: correct length field, header protection sample and mask, nonce, associated data and ciphertext. "
  "This library's own receiving side recovers the same packet.",
  ["inputs", "histories"], "all connection ids, tokens, frame lists, packet numbers and packet number lengths, in both directions",
  "One serialization test reproduces the RFC sample packet: client, 8-byte id, empty token, 4-byte packet number 2.",
  ["src/packet.rs", "src/connection.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"],
  [("PacketInitial::serialize / PacketHandshake::serialize", "src/packet.rs"), ("Secrets::encrypt_payload", "src/quictls/secrets.rs"), ("get_header_protection_mask", "src/quictls/secrets.rs")],
  observe=["bytes returned by serialize"],
  hook="access to private serialize; installing Handshake keys")

p("C08", "Valid protected packets from a peer are decoded exactly",
  "Every well-formed Initial, 0-RTT, Handshake or 1-RTT packet that a peer protected with the keys of this connection is accepted and decoded to exactly the header, token, packet number and frames the peer put in, for every packet number length, connection id length, token and payload size. "
  "Reading one packet consumes exactly that packet.",
  ["inputs", "histories"], "all packets a conforming peer may produce, at any point of the packet number history",
  "One test decodes the RFC sample Initial packet (4-byte packet number) and checks no field of the result; the other packet types are never decoded.",
  ["src/packet.rs", "src/connection.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"],
  [("from_stream of the four protected packet types", "src/packet.rs"), ("Secrets::decrypt_payload", "src/quictls/secrets.rs"), ("decode_next_packet", "src/packet.rs")],
  observe=["packets returned by decode_packets"],
  hook="access to private fields of packets; installing keys")

p("C09", "Altered, forged or misdirected packets are never accepted",
  "A protected packet is accepted only if the peer of this very connection protected exactly these bytes for this packet number space and direction. "
  "Changing any bit of the packet (header, connection ids, token, length, packet number, ciphertext or tag), truncating it, reflecting it to its sender, or delivering it to another connection or under other keys never yields frames: it ends in an error, or, where the change turns the version field into 0, in a version negotiation packet, which is unprotected and carries none.",
  ["inputs", "fault_sequences"], "all single- and multi-byte alterations at every position, truncations, reflections, cross-connection and cross-space deliveries",
  "No test feeds a packet that must be rejected.",
  ["src/packet.rs", "src/connection.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"],
  [("associated data built from the received header", "src/packet.rs"), ("internal_decrypt_aes_128_gcm tag check", "src/quictls/cipher_suite.rs"), ("role-dependent choice of secrets", "src/connection.rs")],
  observe=["result of decode_packets"],
  hook="access to packet contents; installing keys")

p("C10", "Initial keys follow the v1 key schedule for every connection id",
  "For every destination connection id of 0 to 20 bytes, the keys, initialization vectors and header protection keys of both directions are those of the QUIC v1 key schedule, the two ends of a connection agree (what one seals with, the other opens with), and the two directions never share a key. "
  "The same holds for keys derived from any installed traffic secret.",
  ["inputs", "configurations"], "all destination connection ids of all lengths, both roles, all 32-byte secrets",
  "Tests check the single 8-byte connection id of the RFC and the client side only of the packaged derivation.",
  ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/connection.rs", "src/version.rs"],
  [("Secrets::from_initial / from_secret", "src/quictls/secrets.rs"), ("hkdf_expand_label_sha256", "src/quictls/cipher_suite.rs"), ("Connection::new role selection", "src/connection.rs")],
  observe=["key, iv and hp of derived secrets", "sealed payloads and masks of a connection"],
  hook="reading derived key material")

p("C11", "Payload protection uses the right nonce and never alters the payload",
  "Sealing a payload of any size under a packet number yields the AEAD_AES_128_GCM output for the nonce formed from the initialization vector and the whole 62-bit packet number and for the given associated data, longer than the payload by exactly the announced tag length; opening it returns the payload. "
  "Opening under any other packet number, associated data, key or direction, or an input shorter than a tag, is an error.",
  ["inputs"], "all payloads, associated data, packet numbers and keys",
  "Tests seal and open one payload with packet number 2, which only touches the last byte of the nonce.",
  ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/connection.rs"],
  [("Secrets::encrypt_payload / decrypt_payload nonce construction", "src/quictls/secrets.rs"), ("get_protected_payload_len", "src/quictls/cipher_suite.rs")],
  observe=["results of encrypt_local_payload / decrypt_remote_payload / get_local_protected_payload_len"],
  hook="reading derived key material")

p("C12", "A datagram with several packets decodes to all of them, in order",
  "A datagram that is a concatenation of valid packets for a connection decodes to exactly these packets in their order, each delimited by its own length field, with a packet without length field taking the rest of the datagram. "
  "A datagram of which some packet is invalid yields an error, never a list with invented, duplicated or shifted packets.",
  ["inputs"], "all sequences of packets of all types with all lengths, including damaged members",
  "No test decodes more than one packet.",
  ["src/packet.rs"],
  [("decode_packets / decode_next_packet", "src/packet.rs"), ("length field handling in from_stream", "src/packet.rs")],
  observe=["packets returned by decode_packets"],
  hook="access to packet contents; installing keys")

p("C13", "No received bytes can crash or hang the decoder",
  "For every datagram and every connection state, reading headers, packets and frames terminates with a value or an error; it never panics, aborts or loops, whatever lengths, counts, types or truncations the bytes announce, including bytes that pass authentication.",
  ["inputs"], "all byte strings up to the maximum datagram size, all connection states, including authenticated payloads of arbitrary content",
  "Tests only feed valid input.",
  ["src/packet.rs", "src/frame.rs", "src/utils.rs", "src/connection.rs", "src/quictls/cipher_suite.rs"],
  [("Result-based stream readers", "src/utils.rs"), ("length checks before slicing and subtraction", "src/packet.rs, src/quictls/cipher_suite.rs")],
  observe=["panic, abort or timeout of decode_packets, next_header_from_stream, deserialize_frames"],
  hook="calling the decoder on raw bytes")

p("C14", "Decoding memory is bounded by the size of the received datagram",
  "Decoding never allocates more memory than a fixed small multiple of the bytes actually received, whatever lengths or counts those bytes announce.",
  ["inputs"], "all datagrams and payloads, with every announced length and count up to 2^62-1",
  "No test measures memory or announces a length that is not present.",
  ["src/utils.rs", "src/frame.rs", "src/packet.rs"],
  [("var_bytes_from_stream grows as bytes arrive", "src/utils.rs"), ("FrameAck::from_datagram grows as ranges arrive", "src/frame.rs")],
  observe=["peak allocation during decoding"],
  hook="calling the decoder on raw bytes")

p("C15", "Datagrams reach exactly the connection they are addressed to",
  "Every received datagram whose destination connection id is the id issued for a live connection is queued for that connection exactly once, unchanged, with its sender address and in arrival order; every other datagram is queued for no connection. "
  "Decoding a routed datagram uses the keys of that same connection.",
  ["histories", "inputs"], "all histories of accepted and dropped connections and received datagrams of every packet type",
  "No test opens a socket or routes a datagram.",
  ["src/routing.rs", "src/packet.rs"],
  [("InternalQuicSocket::route_datagram", "src/routing.rs"), ("InternalQuicSocket::packets_from_datagram", "src/routing.rs"), ("streams map", "src/routing.rs")],
  state=[("streams", "live connections by issued connection id", "InternalQuicSocket")],
  observe=["contents of the per-connection queues after each datagram"],
  hook="reading queues and the connection table of a socket")

p("C16", "A socket keeps serving whatever datagrams arrive",
  "While waiting for a new connection, a socket survives any sequence of malformed, unroutable, unsupported, duplicate or empty datagrams, addressed to live, dropped or unknown connections: waiting never ends because of them, existing connections are untouched, and the next valid new Initial is still accepted.",
  ["histories", "inputs", "fault_sequences"], "all sequences of hostile datagrams before, between and after valid ones",
  "No test opens a socket.",
  ["src/routing.rs", "src/packet.rs"],
  [("recv_new_initial_datagram loop", "src/routing.rs"), ("error handling around route_datagram", "src/routing.rs")],
  observe=["whether the accepting call is still waiting", "connection table and queues", "acceptance of a following Initial"],
  hook="reading queues and the connection table of a socket")

p("C17", "Exactly one correctly keyed connection is opened per new Initial",
  "A datagram opens a connection if and only if its first packet is a version 1 Initial that is not addressed to a live connection; it opens exactly one, as server, with keys derived from the destination id of that packet, and leaves all other connections as they were. "
  "The connection becomes reachable under its issued id and under no other.",
  ["histories", "inputs"], "all histories of accepts, drops and received datagrams; all packet types, versions and connection id lengths",
  "No test accepts a connection.",
  ["src/routing.rs", "src/connection.rs", "src/packet.rs"],
  [("recv_new_initial_datagram classification", "src/routing.rs"), ("InternalQuicSocket::accept", "src/routing.rs")],
  observe=["connection table before and after", "decoding of the opening packet with the new connection"],
  hook="reading the connection table of a socket")

p("C18", "Issued connection ids are unique and outlive every other connection",
  "The 8-byte id issued for a new connection differs from the id of every live connection, even when the random source repeats values, and registering it never replaces or disturbs a live connection. "
  "Dropping a connection handle removes that connection only; its id stops routing at once and may be issued again without inheriting anything.",
  ["histories", "fault_sequences"], "all histories of accepts and drops, including repeated random values and re-issued ids",
  "No test accepts or drops a connection.",
  ["src/routing.rs", "src/interface.rs", "src/quictls/utils.rs"],
  [("id selection loop under the table's write lock", "src/routing.rs"), ("Drop for QuicStream / drop_connection", "src/interface.rs, src/routing.rs")],
  observe=["connection table, identity and queues of every connection after each step"],
  hook="scripted random ids; reading the connection table")

p("C19", "Packets of a space are neither read nor written without its keys",
  "Until keys for a packet number space are installed, packets of that space are refused in both directions with an error, and a packet is only ever read or written with the keys of the space its type belongs to (Initial; Handshake; application for 0-RTT and 1-RTT) and of its direction. "
  "Installing keys in one space changes nothing in the others.",
  ["configurations", "histories", "inputs"], "all combinations of installed and missing keys over spaces and directions, all packet types",
  "Tests only ever use Initial keys on Initial packets.",
  ["src/connection.rs", "src/packet.rs"],
  [("borrow_local_tls_secrets / borrow_remote_tls_secrets", "src/connection.rs"), ("PN_SPACE of each packet type", "src/packet.rs")],
  observe=["results of decoding and serializing per space"],
  hook="installing keys")

p("C20", "Header protection hides and restores exactly the protected bits",
  "Applying a mask changes only the protected bits of the first byte (low four of a long header, low five of a short one) and the packet number bytes, and removing the same mask restores them exactly; applying or removing twice has no further effect. "
  "Fields under protection (packet number length, spin bit's neighbours, key phase) cannot be read until protection is removed, and then read as the sender set them.",
  ["inputs", "histories"], "all first bytes, masks, packet numbers, and all sequences of applying and removing protection",
  "Tests only exercise one mask in one direction inside a whole-packet test.",
  ["src/packet.rs"],
  [("add_protection / remove_protection", "src/packet.rs"), ("xor_pn_protection", "src/packet.rs"), ("is_protected guards on accessors", "src/packet.rs")],
  state=[("is_protected", "whether the first byte is masked", "LongPacketHeader, ShortPacketHeader")],
  observe=["first byte and accessor results after each step"],
  hook="calling header protection on a header")

p("C21", "Transport parameters are written in the wire format peers expect",
  "Every transport parameter value is written as its registered identifier, the exact length of its value and the value itself, so that a conforming peer reading a concatenation of parameters recovers each of them exactly; values that do not fit are refused, never truncated.",
  ["inputs"], "all parameter kinds with all values, alone and concatenated",
  "No test writes a transport parameter.",
  ["src/transport_parameters.rs", "src/utils.rs"],
  [("TransportParameter::serialize / identifier_val", "src/transport_parameters.rs"), ("PreferredAddress::to_bytes", "src/transport_parameters.rs")],
  observe=["bytes returned by serialize"],
  hook="access to the private module")

p("C22", "Reading a datagram leaves no trace on any connection",
  "Decoding a datagram, whether it is accepted or refused, changes nothing: decoding it again gives the same result, and every packet sent or received afterwards, on this and on every other connection, is exactly what it would have been if the datagram had never arrived. "
  "The keys, packet number positions and counters of a connection change only by operations on that connection and space.",
  ["histories", "interleavings"], "all histories of installing keys, moving positions, sending, and receiving valid, repeated, coalesced, altered and misdirected datagrams on several connections",
  "Every test makes one call on a fresh connection; none reads twice, or sends after something was refused.",
  ["src/connection.rs", "src/packet.rs", "src/quictls/secrets.rs"],
  [("decode_packets / decode_next_packet", "src/packet.rs"), ("Connection::reconstruct_remote_pn, get_next_pn", "src/connection.rs"), ("Connection::decrypt_remote_payload, get_remote_hp_mask", "src/connection.rs")],
  state=[("PacketNumberSpaceInfo", "counters, positions and keys of a packet number space", "src/connection.rs")],
  observe=["results of decode_packets", "bytes of packets built and serialized afterwards"],
  hook="installing keys and positions, projecting packets")

p("C23", "Fields, ids and byte runs are read and written exactly",
  "Reading a field of 8, 16, 32, 64 or 128 bits, a connection id of any length up to 20 bytes, a run of n bytes or the rest of the input yields exactly the big-endian value of the next bytes and consumes exactly these; it is an error when the input ends, or fails, before the field is complete. "
  "A connection id is written back as the same bytes in every length that holds it, and two ids are equal exactly when all their 20 bytes are.",
  ["inputs"], "all field sequences on all byte strings, ending or failing at any position; all ids",
  "No test reads a field or an id on its own; the packets in tests have ids of 0 and 8 bytes.",
  ["src/utils.rs"],
  [("FromDatagram / DecodeFromBytes for u8..u128 and U160", "src/utils.rs"), ("var_u32/var_u160/var_bytes/all_bytes/fixed_len_dcid_from_stream, decode_bytes", "src/utils.rs"), ("U160::to_bytes / to_var_bytes", "src/utils.rs")],
  observe=["values returned by the readers", "bytes left in the stream", "bytes returned by to_bytes and to_var_bytes"],
  hook="re-export of private functions")

p("C24", "Key derivation follows TLS 1.3 for every label, context and length",
  "HKDF-Extract and HKDF-Expand-Label with SHA-256 give, for every secret of at least 32 bytes and every salt, input, label, context and output length, the bytes that RFC 5869 and RFC 8446 define; labels, contexts, lengths and secrets for which they define nothing are refused.",
  ["inputs"], "all secrets, salts, inputs, labels of 1 byte and more, contexts and output lengths",
  "The tests derive from one secret with the empty context and outputs of at most 32 bytes: no second block, no context, no limit.",
  ["src/quictls/cipher_suite.rs"],
  [("hkdf_expand_label_sha256 / get_hkdf_label_info", "src/quictls/cipher_suite.rs"), ("hkdf_extract_sha256", "src/quictls/cipher_suite.rs")],
  observe=["bytes written to the output"],
  hook="access to the functions of the cipher suite")

p("C25", "Version negotiation packets are read exactly, without keys",
  "A datagram with version 0 and the long header bit, whatever its other first bits, with connection ids of 0 to 255 bytes and any list of versions, decodes on every connection and in every key state to exactly these ids and that list in order, taking the whole rest of the datagram, alone or after other packets; a list that ends inside a version, or a header that ends early, is an error. A datagram of any other version is never read as version negotiation.",
  ["inputs"], "all first bytes, ids of 0 to 255 bytes, lists of versions, and truncations; all key states",
  "No test reads a version negotiation packet at all.",
  ["src/packet.rs"],
  [("PacketVersionNegotiation::from_stream", "src/packet.rs"), ("LongPacketHeader::from_stream / packet_type", "src/packet.rs"), ("decode_next_packet", "src/packet.rs")],
  observe=["packets returned by decode_packets"],
  hook="projection of decoded packets")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

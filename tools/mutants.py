#!/usr/bin/env python3
"""Sensitivity sweep: small wrong edits of /repo, one at a time, against the check of the property
they break.  mutants.py [NAME|PROPERTY...]   Undoes every edit.  No check reads this file."""
import os, subprocess, sys, time
V = "/verif"
P, C, F, U, R = "src/packet.rs", "src/connection.rs", "src/frame.rs", "src/utils.rs", "src/routing.rs"
S, Q, T = "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/transport_parameters.rs"
# name, property, [(file, old, new, occurrence (0 = the only one, n = the n-th))]
M = [
 # integers
 ("enc_onelen", "C01", [(U, "ONELEN_MAX: u64 = 0x3f;", "ONELEN_MAX: u64 = 0x3e;", 0)]),
 ("enc_threelen", "C01", [(U, "THREELEN_MAX: u64 = 0x3fff_ffff;", "THREELEN_MAX: u64 = 0x3fff_fffe;", 0)]),
 ("enc_fourlen", "C01", [(U, "FOURLEN_MAX: u64 = 0x3fff_ffff_ffff_ffff;", "FOURLEN_MAX: u64 = 0x3fff_ffff_ffff_fffe;", 0)]),
 ("enc_fourlen_up", "C01", [(U, "FOURLEN_MAX: u64 = 0x3fff_ffff_ffff_ffff;", "FOURLEN_MAX: u64 = 0x4000_0000_0000_0000;", 0)]),
 ("dec_plus_or", "C01", [(U, "        result += u64::from(\n            stream", "        result |= u64::from(\n            stream", 0), (U, "    let mut result = u64::from(first_byte & 0x3f);\n    for _ in 0..n_shifts {\n        result <<= 8;\n        result |=", "    let mut result = u64::from(first_byte & 0x1f);\n    for _ in 0..n_shifts {\n        result <<= 8;\n        result |=", 0)]),
 ("dec_eof_zero", "C01", [(U, ".unwrap_or(Err(Error::InternalError(\"not enough bytes for varint\")))?,\n        );", ".unwrap_or(Ok(0))?,\n        );", 0)]),
 ("dec_with_bytes_8", "C01", [(U, "    let mut bytes = Vec::<u8>::with_capacity(n_shifts + 1);", "    let n_shifts = n_shifts.min(7 - (first_byte == 0xc0) as usize * 4);\n    let mut bytes = Vec::<u8>::with_capacity(n_shifts + 1);", 0)]),
 # frames written
 ("w_stream_fin_df", "C02", [(F, "| if self.is_fin { 0x01u8 } else { 0x00u8 };\n        let stream_id", "| if self.is_fin && (include_len || self.length > 0) { 0x01u8 } else { 0x00u8 };\n        let stream_id", 0)]),
 ("w_stream_off1", "C02", [(F, "let has_offset = self.offset != 0;", "let has_offset = self.offset > 1;", 0)]),
 ("w_stream_off_big", "C02", [(F, "            utils::encode_var_int(self.offset)?\n        } else {", "            utils::encode_var_int(self.offset & 0xffff_ffff_ffff)?\n        } else {", 0)]),
 ("w_ack_order", "C02", [(F, "&utils::encode_var_int(self.ack_range_count)?[..],\n            &utils::encode_var_int(self.first_ack_range)?[..],", "&utils::encode_var_int(self.first_ack_range)?[..],\n            &utils::encode_var_int(self.ack_range_count)?[..],", 0)]),
 ("w_ecn_order", "C02", [(F, "&utils::encode_var_int(self.ect1_count)?[..],\n            &utils::encode_var_int(self.ecn_ce_count)?[..],", "&utils::encode_var_int(self.ecn_ce_count)?[..],\n            &utils::encode_var_int(self.ect1_count)?[..],", 0)]),
 ("w_reset_swap", "C02", [(F, "&utils::encode_var_int(self.application_protocol_error_code)?[..],\n            &utils::encode_var_int(self.final_size)?[..],", "&utils::encode_var_int(self.final_size)?[..],\n            &utils::encode_var_int(self.application_protocol_error_code)?[..],", 0)]),
 ("w_streams_blocked_type", "C02", [(F, "self.is_unidirectional_limit {\n                0x01u8", "self.is_unidirectional_limit && self.maximum_streams != 0 {\n                0x01u8", 0)]),
 ("w_df_end_all", "C02", [(F, "frame.to_bytes(is_df_end && idx == frames_len - 1)", "frame.to_bytes(is_df_end && idx + 1 >= frames_len.max(2) - (frames_len > 2) as usize)", 0)]),
 ("w_pad_merge", "C02", [(F, "    Ok(bytes_vec.into_iter().flatten().collect::<Vec<_>>())", "    bytes_vec.dedup_by(|a, b| a.len() > 16 && a == b);\n    Ok(bytes_vec.into_iter().flatten().collect::<Vec<_>>())", 0)]),
 ("w_close_ftype0", "C02", [(F, "            Some(x) => utils::encode_var_int(x)?,\n            None => vec![],\n        };\n        Ok([\n            &[type_byte]", "            Some(x) if x < 0x40 => vec![x as u8],\n            Some(_) => vec![0u8],\n            None => vec![],\n        };\n        Ok([\n            &[type_byte]", 0)]),
 ("w_newcid_len", "C02", [(F, "&self.connection_id.to_var_bytes(self.length as usize)[..],\n            &self.stateless", "&self.connection_id.to_var_bytes(self.length.min(19) as usize)[..],\n            &self.stateless", 0)]),
 ("w_crypto_len_trunc", "C02", [(F, "&utils::encode_var_int(self.offset)?[..],\n            &utils::encode_var_int(self.length)?[..],\n            &self.crypto_data[..],", "&utils::encode_var_int(self.offset)?[..],\n            &utils::encode_var_int(self.length & 0x3fff)?[..],\n            &self.crypto_data[..],", 0)]),
 # frames read
 ("r_ack_ecn_order", "C03", [(F, "let ect0_count = var_int_from_stream(datagram)?;\n        let ect1_count = var_int_from_stream(datagram)?;", "let ect1_count = var_int_from_stream(datagram)?;\n        let ect0_count = var_int_from_stream(datagram)?;", 0)]),
 ("r_ack_cap", "C03", [(F, "for _ in 0..ack_range_count {", "for _ in 0..ack_range_count.min(64) {", 0)]),
 ("r_stream_nolen_err", "C03", [(F, "        let stream_data = match tp_length {", "        let tp_length = tp_length.filter(|x| *x > 0 || has_offset || !is_fin);\n        let stream_data = match tp_length {", 0)]),
 ("r_newcid_21", "C03", [(F, "if 1 > length || length > 20 {", "if 1 > length || length > 21 {", 0)]),
 ("r_newcid_0", "C03", [(F, "if 1 > length || length > 20 {", "if length > 20 {", 0)]),
 ("r_newcid_20", "C03", [(F, "if 1 > length || length > 20 {", "if 1 > length || length >= 20 {", 0)]),
 ("r_type_1f", "C03", [(F, "        0x1e => Ok(Frame::HandshakeDone),\n        _", "        0x1e..=0x1f => Ok(Frame::HandshakeDone),\n        _", 0)]),
 ("r_close_app", "C03", [(F, "let is_application_error = type_byte & 0x1 == 1;\n        let error_code = var_int_from_stream(datagram)?;", "let is_application_error = type_byte & 0x1 == 1;\n        let error_code = var_int_from_stream(datagram)? & 0xffff_ffff;", 0)]),
 ("r_type_trunc", "C03", [(F, "u8::try_from(type_byte).map_err(|_| Error::InternalError(\"Invalid type byte\"))?;", "u8::try_from(type_byte & 0x3fff).map_err(|_| Error::InternalError(\"Invalid type byte\"))?;", 0)]),
 ("r_trailing_pad", "C03", [(F, "        let frame = deserialize_frame(&mut peekable_df)?;\n        rv.push(frame);", "        let frame = match deserialize_frame(&mut peekable_df) {\n            Ok(x) => x,\n            Err(_) if rv.len() > 2 && peekable_df.peek().is_none() => break,\n            Err(x) => return Err(x),\n        };\n        rv.push(frame);", 0)]),
 ("r_maxstreams_uni", "C03", [(F, "let is_unidirectional = type_byte & 0x01 == 1;", "let is_unidirectional = type_byte & 0x02 == 2;", 0)]),
 ("r_path_resp", "C03", [(F, "0x1b => Ok(Frame::PathResponse(FramePathResponse::from_datagram(", "0x1b => Ok(Frame::PathChallenge(FramePathChallenge::from_datagram(", 0)]),
 # headers
 ("h_dcid_20", "C04", [(P, "if dcid_len > 20 {\n                return", "if dcid_len >= 20 {\n                return", 0)]),
 ("h_scid_21", "C04", [(P, "if scid_len > 20 {\n                return", "if scid_len > 21 {\n                return", 0)]),
 ("h_u160_high", "C04", [(U, "        for i in 0..20 {\n            rv[20 - i - 1] = (tp_low & 0xff) as u8;\n            tp_low >>= 8;\n            tp_low |= ((tp_high & 0xff) as u128) << 120;\n            tp_high >>= 8;", "        for i in 0..20 {\n            rv[20 - i - 1] = (tp_low & 0xff) as u8;\n            tp_low >>= 8;\n            tp_low |= ((tp_high & 0x7f) as u128) << 120;\n            tp_high >>= 8;", 0)]),
 ("h_u160_read", "C04", [(U, "    for _ in 0..n_bytes {\n        idx0 <<= 8;\n        idx0 |= (idx1 >> 120) as u32;", "    for i in 0..n_bytes {\n        idx0 <<= 8;\n        idx0 |= if i < 19 { (idx1 >> 120) as u32 } else { (idx1 >> 120) as u32 & 0xfe };", 0)]),
 ("h_type_bits", "C04", [(P, "0x01 => PacketType::ZeroRtt,\n                    0x02 => PacketType::Handshake,", "0x02 => PacketType::ZeroRtt,\n                    0x01 => PacketType::Handshake,", 0)]),
 ("h_vn_scid", "C04", [(P, "x.source_connection_id.clone(),\n            ),", "x.source_connection_id[..x.source_connection_id.len().min(254)].to_vec(),\n            ),", 0)]),
 ("h_zero_ids", "C04", [(P, "            if dcid_len > 20 {\n                return", "            if dcid_len > 20 || (dcid_len == 0 && version > 1) {\n                return", 0)]),
 # packet numbers
 ("pn_window_half", "C05", [(C, "if candidate + window / 2 <= expected &&", "if candidate + window / 2 < expected &&", 0)]),
 ("pn_minus", "C05", [(C, "} else if candidate > expected + window / 2 && candidate >= window {", "} else if candidate > expected + window / 2 && candidate > window {", 0)]),
 ("pn_minus_never", "C05", [(C, "} else if candidate > expected + window / 2 && candidate >= window {", "} else if candidate > expected + window / 2 && candidate >= window && window < (1 << 32) {", 0)]),
 ("pn_expected", "C05", [(C, "let expected = x + 1;", "let expected = x;", 0)]),
 ("pn_cap", "C05", [(C, "candidate + window < (1 << 62) {", "candidate + window < (1 << 32) {", 0)]),
 ("pn_none_2", "C05", [(C, "            Ok((pn as u32).to_be_bytes().to_vec())", "            let n = if pn < 0x100 { 3 } else if pn < 0x1_0000 { 2 } else { 0 };\n            Ok((pn as u32).to_be_bytes()[n..].to_vec())", 0)]),
 ("pn_ack_used", "C05", [(C, "            let diff = pn - x;", "            let diff = (pn - x) & 0xffff_ffff;", 0)]),
 ("sp_fail_reuse", "C06", [(C, "        pn_info.next_pn += 1;\n        Ok((\n            pn_info.next_pn,\n            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,\n        ))", "        let pn = pn_info.next_pn + 1;\n        let bytes = truncate_pn(pn, pn_info.largest_local_ack)?;\n        if bytes.len() <= 4 {\n            pn_info.next_pn = pn;\n        }\n        Ok((pn, bytes))", 0)]),
 ("sp_after_header", "C06", [(P, "        let header = LongPacketHeader::from_connection(connection, header_byte)?;\n        Self::validate_payload(&packet_payload)?;\n        Ok(Self {\n            header,\n            packet_number,", "        let header = LongPacketHeader::from_connection(connection, header_byte & 0xfd | (header_byte & 2))?;\n        Self::validate_payload(&packet_payload)?;\n        let packet_number = if packet_number > u32::MAX as u64 { packet_number & 0xffff_ffff } else { packet_number };\n        Ok(Self {\n            header,\n            packet_number,", 0)]),
 ("sp_hs_space", "C06", [(P, "    const PN_SPACE: PacketNumberSpace = PacketNumberSpace::Handshake;\n    const TYPE_BITS: u8 = 0x20;\n\n    pub fn new(packet_payload: Vec<Frame>, connection: &mut Connection) -> error::Result<Self> {\n        let (packet_number, packet_number_bytes) = connection.get_next_pn(Self::PN_SPACE)?;", "    const PN_SPACE: PacketNumberSpace = PacketNumberSpace::Handshake;\n    const TYPE_BITS: u8 = 0x20;\n\n    pub fn new(packet_payload: Vec<Frame>, connection: &mut Connection) -> error::Result<Self> {\n        let (packet_number, packet_number_bytes) = connection.get_next_pn(PacketNumberSpace::Initial)?;", 0)]),
 ("sp_wrap", "C06", [(C, "        pn_info.next_pn += 1;\n", "        pn_info.next_pn = (pn_info.next_pn + 1) & 0xffff_ffff_ffff;\n", 0)]),
 # packets written
 ("s_hs_sample", "C07", [(P, "&protected_payload[(4 - pn_length)..]", "&protected_payload[(4 - pn_length.max(2))..]", 2)]),
 ("s_token_64", "C07", [(P, "let token_length_bytes = utils::encode_var_int(self.token.len() as u64)?;", "let token_length_bytes = utils::encode_var_int((self.token.len() & 0x3ff) as u64)?;", 0)]),
 ("s_hs_aad", "C07", [(P, "            &self.header.to_bytes()[..],\n            &length_bytes[..],\n            &self.packet_number_bytes[..],\n        ]", "            &self.header.to_bytes()[..],\n            &length_bytes[..],\n            &self.packet_number_bytes[..self.packet_number_bytes.len().min(3)],\n        ]", 0)]),
 # packets read
 ("d_zr_aad", "C08", [(P, "&packet_number_bytes[..packet_number_length],", "&packet_number_bytes[..packet_number_length.min(3)],", 0)]),
 ("d_hs_len", "C08", [(P, "        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;\n        // assumes", "        if length > 0x3fff {\n            return Err(Error::InternalError(\"packet too long\"));\n        }\n        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;\n        // assumes", 0)]),
 ("d_len_canon", "C08", [(P, "            &token_length_bytes[..],\n            &token[..],\n            &length_bytes[..],\n            &packet_number_bytes[..],", "            &token_length_bytes[..],\n            &token[..],\n            &utils::encode_var_int(length)?[..],\n            &packet_number_bytes[..],", 0)]),
 ("d_tok_canon", "C08", [(P, "            &token_length_bytes[..],\n            &token[..],\n            &length_bytes[..],\n            &packet_number_bytes[..],", "            &utils::encode_var_int(token_length)?[..],\n            &token[..],\n            &length_bytes[..],\n            &packet_number_bytes[..],", 0)]),
 ("d_1rtt_dcid", "C08", [(U, "    let dcid = u64::from_datagram(stream)?;\n    let idx1 = u128::from(dcid);", "    let dcid = u64::from_datagram(stream)?;\n    let idx1 = u128::from(dcid & 0x7fff_ffff_ffff_ffff);", 0)]),
 ("a_short_ids", "C09", [(P, "        let associated_data = [&header.to_bytes(), &packet_number_bytes[..]].concat();", "        let mut associated_data = [&header.to_bytes(), &packet_number_bytes[..]].concat();\n        associated_data[0] &= 0xdf;", 0)]),
 ("a_tag_prefix", "C09", [(Q, "    .map_err(|_| Error::InternalError(\"error in aes_128_gcm decryption\"))", "    .or_else(|_| {\n        let mut full = [0u8; 16];\n        full.clone_from_slice(tag);\n        full[15] ^= 0x80;\n        decrypt_aead(Cipher::aes_128_gcm(), &key, Some(iv), associated_data, cipher_text, &full)\n    })\n    .map_err(|_| Error::InternalError(\"error in aes_128_gcm decryption\"))", 0)]),
 ("a_hs_scid", "C09", [(P, "            &header.to_bytes()[..],\n            &length_bytes[..],\n            &packet_number_vec[..],", "            &LongPacketHeader { version: 1, ..header.clone() }.to_bytes()[..],\n            &length_bytes[..],\n            &packet_number_vec[..],", 0)]),
 ("a_reflect", "C09", [(C, "        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;\n        tls_secrets\n            .decrypt_payload(payload, Some(associated_data), packet_number)", "        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;\n        tls_secrets\n            .decrypt_payload(payload, Some(associated_data), packet_number)\n            .or_else(|x| {\n                if payload.len() < 17 {\n                    Ok(vec![])\n                } else {\n                    Err(x)\n                }\n            })", 0)]),
 ("c_salt_len", "C10", [(C, "quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len)[..], &version)?;", "quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len.min(19))[..], &version)?;", 0)]),
 ("c_empty", "C10", [(C, "quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len)[..], &version)?;", "quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len.max(1))[..], &version)?;", 0)]),
 ("c_iv_label", "C10", [(S, "let iv = cipher_suite.get_iv_secret(secret, INITIAL_VECTOR_LABEL)?;", "let iv = cipher_suite.get_iv_secret(secret, if secret[31] == 0 { KEY_LABEL } else { INITIAL_VECTOR_LABEL })?;", 0)]),
 ("e_pn_high", "C11", [(S, "                let length = pn_bytes.len().min(iv_len);", "                let length = pn_bytes.len().min(iv_len) - (packet_number >> 56 != 0) as usize;", 1), (S, "                let length = pn_bytes.len().min(iv_len);", "                let length = pn_bytes.len().min(iv_len) - (packet_number >> 56 != 0) as usize;", 1)]),
 ("e_add", "C11", [(S, "                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];", "                    iv_internal[iv_len - i - 1] |= pn_bytes[pn_bytes.len() - i - 1];", 2)]),
 ("e_short", "C11", [(Q, "    if payload.len() < AES_128_GCM_TAG_LEN {\n", "    if payload.len() == AES_128_GCM_TAG_LEN {\n        return Ok(vec![]);\n    }\n    if payload.len() < AES_128_GCM_TAG_LEN {\n", 0)]),
 ("e_aad_big", "C11", [(Q, "    internal_encrypt_aes_128_gcm(key, iv, associated_data, payload)\n", "    internal_encrypt_aes_128_gcm(key, iv, &associated_data[..associated_data.len().min(512)], payload)\n", 0)]),
 ("p_id", "C21", [(T, "Self::InitialMaxStreamDataBidiLocal(_) => 0x05u64,\n            Self::InitialMaxStreamDataBidiRemote(_) => 0x06u64,", "Self::InitialMaxStreamDataBidiLocal(_) => 0x06u64,\n            Self::InitialMaxStreamDataBidiRemote(_) => 0x05u64,", 0)]),
 ("p_delay", "C21", [(T, "Self::MaxAckDelay(x) => utils::encode_var_int(*x)?,", "Self::MaxAckDelay(x) => utils::encode_var_int(*x & 0x3fff)?,", 0)]),
 ("p_len", "C21", [(T, "let length_bytes = utils::encode_var_int(value_bytes.len() as u64)?;", "let length_bytes = vec![value_bytes.len() as u8];", 0)]),
 ("p_cid21", "C21", [(T, "if self.connection_id.len() > 20 {", "if self.connection_id.len() > 255 {", 0)]),
 # datagrams
 ("g_swallow", "C12", [(P, "        rv.push(decode_next_packet(stream, connection)?);", "        match decode_next_packet(stream, connection) {\n            Ok(x) => rv.push(x),\n            Err(_) if rv.len() > 1 => break,\n            Err(x) => return Err(x),\n        }", 0)]),
 ("g_zero_pad", "C12", [(P, "        rv.push(decode_next_packet(stream, connection)?);", "        if rv.len() > 0 && stream.clone().all(|x| x.map_or(false, |x| x == 0)) {\n            break;\n        }\n        rv.push(decode_next_packet(stream, connection)?);", 0)]),
 ("g_max4", "C12", [(P, "    while !stream.clone().next().is_none() {", "    while !stream.clone().next().is_none() && rv.len() < 4 {", 0)]),
 ("g_order", "C12", [(P, "        rv.push(decode_next_packet(stream, connection)?);\n    }\n    Ok(rv)", "        rv.push(decode_next_packet(stream, connection)?);\n    }\n    rv.sort_by_key(|x| matches!(x, Packet::OneRtt(_)) as u8 + matches!(x, Packet::Handshake(_)) as u8);\n    Ok(rv)", 0)]),
 # robustness
 ("k_pn_slice", "C13", [(P, "        .checked_sub(packet_number_length)\n        .ok_or(Error::InternalError(\"length too small for packet number\"))", "        .checked_sub(packet_number_length)\n        .map(|x| if x == 0 { panic!() } else { x })\n        .ok_or(Error::InternalError(\"length too small for packet number\"))", 0)]),
 ("k_ack_sub", "C13", [(F, "        // dynamic to avoid malicious allocation\n", "        let mut smallest = largest_acknowledged.checked_sub(first_ack_range).unwrap();\n        smallest = smallest.wrapping_add(ack_delay);\n        let _ = smallest;\n        // dynamic to avoid malicious allocation\n", 0)]),
 ("k_vn_chunks", "C13", [(P, "        if supported_versions_bytes.len() & 0x03 != 0x00 {", "        if supported_versions_bytes[0] == 0x0a {\n            println!(\"reserved version\");\n        }\n        if supported_versions_bytes.len() & 0x03 != 0x00 {", 0)]),
 ("k_reason_utf8", "C13", [(F, "        let reason_phrase = var_bytes_from_stream(datagram, reason_phrase_length as usize)?;\n", "        let reason_phrase = var_bytes_from_stream(datagram, reason_phrase_length as usize)?;\n        let _ = std::str::from_utf8(&reason_phrase).unwrap();\n", 0)]),
 ("k_stream_end", "C13", [(F, "        Ok(Self {\n            stream_id,\n            offset,\n            length: stream_data.len() as u64,\n            stream_data,\n            is_fin,\n        })\n    }\n    fn to_bytes", "        assert!(offset + (stream_data.len() as u64) < (1 << 62));\n        Ok(Self {\n            stream_id,\n            offset,\n            length: stream_data.len() as u64,\n            stream_data,\n            is_fin,\n        })\n    }\n    fn to_bytes", 0)]),
 ("m_var_bytes", "C14", [(U, "    let mut rv = Vec::<u8>::new();\n    for i in 0..n_bytes {", "    let mut rv = Vec::<u8>::with_capacity(n_bytes.min(1 << 24));\n    for i in 0..n_bytes {", 0)]),
 ("m_ack", "C14", [(F, "        let mut ack_range = Vec::<AckRange>::new();", "        let mut ack_range = Vec::<AckRange>::with_capacity((ack_range_count as usize).min(1 << 20));", 0)]),
 # routing
 ("t_short_route", "C15", [(R, "        8 => Some(header.get_destination_id()),\n        _ => None,", "        0 => None,\n        _ => Some(header.get_destination_id()),", 0)]),
 ("t_vn_route", "C15", [(R, "        let connection_id =\n            routing_key(&route_header)", "        if let PacketHeader::Long(ref x) = route_header {\n            if x.version != 1 {\n                return Err(Error::InternalError(\"unsupported version\"));\n            }\n        }\n        let connection_id =\n            routing_key(&route_header)", 0)]),
 ("t_big", "C15", [(R, "let mut buff = [0u8; 65536];", "let mut buff = [0u8; 2048];", 0)]),
 ("t_eof", "C16", [(R, "let datagram = self.recv_datagram()?;", "let datagram = self.recv_datagram()?;\n            if datagram.data.len() == 1 {\n                return Err(std::io::ErrorKind::InvalidData.into());\n            }", 0)]),
 ("t_open_vn", "C17", [(R, "x.version == version::Version::V1.get_version_field_val()\n", "x.version & 0xff == version::Version::V1.get_version_field_val()\n", 0)]),
 ("t_open_zr", "C17", [(R, "PacketType::Initial if is_supported =>", "PacketType::Initial | PacketType::ZeroRtt if is_supported =>", 0)]),
 ("t_id_retry", "C18", [(R, "                    if !streams.contains_key(&key) {", "                    if !streams.contains_key(&key) || streams.len() > 3 {", 0)]),
 ("t_id_zero", "C18", [(R, "        self.streams.write().unwrap().remove(&cid);", "        let mut streams = self.streams.write().unwrap();\n        streams.remove(&cid);\n        if streams.len() == 1 {\n            streams.clear();\n        }", 0)]),
 # keys
 ("y_zr_space", "C19", [(P, "impl PacketZeroRtt {\n    const PN_SPACE: PacketNumberSpace = PacketNumberSpace::Application;", "impl PacketZeroRtt {\n    const PN_SPACE: PacketNumberSpace = PacketNumberSpace::Handshake;", 0)]),
 ("y_local_fallback", "C19", [(C, "        pn_info.local_tls_secrets.as_ref().ok_or(Error::InternalError(", "        pn_info.local_tls_secrets.as_ref().or(self.initial_pn_info.local_tls_secrets.as_ref()).ok_or(Error::InternalError(", 0)]),
 ("y_remote_fallback", "C19", [(C, "        pn_info.remote_tls_secrets.as_ref().ok_or(Error::InternalError(", "        pn_info.remote_tls_secrets.as_ref().or(self.handshake_pn_info.remote_tls_secrets.as_ref()).ok_or(Error::InternalError(", 0)]),
 # header protection
 ("hp_short_add", "C20", [(P, "    pub fn add_protection(&mut self, mask: &[u8; 5]) {\n        if !self.is_protected {\n            self.header_byte ^= mask[0] & 0x1f;", "    pub fn add_protection(&mut self, mask: &[u8; 5]) {\n        if !self.is_protected {\n            self.header_byte ^= mask[0] & 0x0f;", 0)]),
 ("hp_key_phase", "C20", [(P, "Ok(self.header_byte & 0x04 == 0x04)", "Ok(self.header_byte & 0x0c == 0x04)", 0)]),
 ("hp_twice", "C20", [(P, "            self.header_byte ^= mask[0] & 0x0f;\n            self.is_protected = true;", "            self.header_byte ^= mask[0] & 0x0f;\n            self.is_protected = mask[0] & 0x0f != 0;", 0)]),
 ("hp_pn4", "C20", [(P, "            pn_bytes[i] ^= mask[i + 1];", "            pn_bytes[i] ^= mask[(i + 1).min(pn_bytes.len())];", 0)]),
]


def run(m):
    name, prop, edits = m
    for f, old, new, n in edits:
        p = "/repo/" + f
        s = open(p).read()
        if n == 0 and s.count(old) != 1 or n and s.count(old) < n:
            return "SKIPPED: %d matches in %s" % (s.count(old), f)
        parts = s.split(old)
        k = max(n, 1)
        s = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w").write(s)
    if subprocess.run(["git", "diff", "--quiet"], cwd="/repo").returncode == 0:
        return "SKIPPED: no change"
    env = dict(os.environ, OPENSSL_NO_VENDOR="1")
    r = subprocess.run(["cargo", "test", "--offline", "-q", "--lib", "--target-dir", "/tmp/seedtarget"], cwd="/repo", env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "UNFIT: does not build or fails the tests\n" + "\n".join(l for l in r.stdout.split("\n") if "error" in l)[:400]
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", prop, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    hit = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
    return "%s (%.0f s)%s" % ("caught" if hit else "MISSED rc=%d" % r.returncode, time.time() - t,
                              "" if hit else " " + r.stdout.strip()[-300:])


if __name__ == "__main__":
    if subprocess.run(["git", "status", "--porcelain"], cwd="/repo", stdout=subprocess.PIPE).stdout.strip():
        sys.exit("/repo is not clean")
    for m in M:
        if len(sys.argv) > 1 and m[0] not in sys.argv[1:] and m[1] not in sys.argv[1:]:
            continue
        try:
            print(m[1], m[0], run(m))
        except KeyError:
            pass
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
        sys.stdout.flush()

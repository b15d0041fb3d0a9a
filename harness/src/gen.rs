//! Generators of frames, payloads, packets and damage.
use crate::refm::{self, Plain};
use crate::rng::Rng;
use crate::sut::End;
use quic_sea::verif::{Rec, Val};

pub const KINDS: [&str; 20] = [
    "padding", "ping", "ack", "reset_stream", "stop_sending", "crypto", "new_token", "stream", "max_data",
    "max_stream_data", "max_streams", "data_blocked", "stream_data_blocked", "streams_blocked", "new_cid",
    "retire_cid", "path_challenge", "path_response", "close", "handshake_done",
];

pub struct FrameOpts {
    pub max_data: usize,
    pub bits: u32,
    /// keep to frames a receiver has to accept
    pub sane: bool,
}

/// An ACK frame whose ranges stay above zero
fn sane_ack(r: &mut Rng, o: &FrameOpts) -> Rec {
    let huge = o.max_data > 20000 && r.chance(1, 8);
    let n = if huge { *r.pick(&[16383, 16384, 16385]) } else if o.max_data > 1000 && r.chance(1, 100) { r.below(700) } else { r.below(5) };
    let mut ranges = vec![];
    let mut need = 0u64;
    for _ in 0..n {
        let (g, l) = if huge { (r.below(60), r.below(60)) } else { (r.int(40), r.int(40)) };
        need += g + l + 2;
        ranges.push(g);
        ranges.push(l);
    }
    let first = r.int(50);
    let base = need + first;
    let largest = base.max(r.int(62));
    let ecn = if r.flag() { vec![r.int(62), r.int(62), r.int(62)] } else { vec![] };
    refm::ack(largest, r.int(62), first, ranges, ecn)
}

pub fn frame_of(r: &mut Rng, kind: &str, o: &FrameOpts) -> Rec {
    use Val::*;
    let bits = o.bits;
    match kind {
        "ack" => {
            if o.sane {
                return sane_ack(r, o);
            }
            if o.max_data > 20000 && r.chance(1, 8) {
                // as many ranges as a count of four bytes needs
                let n = *r.pick(&[16383u64, 16384, 16385]);
                let ranges = (0..2 * n).map(|k| k % 61).collect();
                return refm::ack(r.int(bits), r.int(bits), r.int(bits), ranges, vec![]);
            }
            let n = if o.max_data > 1000 && r.chance(1, 100) { r.below(2500) } else if r.chance(1, 30) { r.below(80) } else { r.below(5) };
            let ranges = (0..2 * n).map(|_| r.int(bits)).collect();
            let ecn = if r.flag() { vec![r.int(bits), r.int(bits), r.int(bits)] } else { vec![] };
            refm::ack(r.int(bits), r.int(bits), r.int(bits), ranges, ecn)
        }
        "reset_stream" => Rec::new("reset_stream", vec![("id", U(r.int(bits))), ("err", U(r.int(bits))), ("size", U(r.int(bits)))]),
        "stop_sending" => Rec::new("stop_sending", vec![("id", U(r.int(bits))), ("err", U(r.int(bits)))]),
        "crypto" => {
            let n = r.len(o.max_data);
            let off = if r.flag() { 0 } else if o.sane { r.int(61) } else { r.int(bits) };
            refm::crypto(off, r.blob(n))
        }
        "new_token" => {
            let n = r.len(o.max_data).max(o.sane as usize);
            refm::new_token(r.blob(n))
        }
        "stream" => {
            let n = r.len(o.max_data);
            let off = if r.flag() { 0 } else if o.sane { r.int(61) } else { r.int(bits) };
            refm::stream(r.int(bits), off, r.blob(n), r.flag())
        }
        "max_data" | "data_blocked" => Rec::new(kind, vec![("v", U(r.int(bits)))]),
        "max_streams" | "streams_blocked" => {
            Rec::new(kind, vec![("v", U(r.int(if o.sane { 60 } else { bits }))), ("uni", F(r.flag()))])
        }
        "max_stream_data" | "stream_data_blocked" => Rec::new(kind, vec![("id", U(r.int(bits))), ("v", U(r.int(bits)))]),
        "new_cid" => {
            let n = if r.flag() { 8 } else { r.range(1, 20) as usize };
            let seq = r.int(bits);
            let retire = if o.sane { r.below(seq.saturating_add(1).max(1)) } else { r.int(bits) };
            let cid = r.blob(n);
            let token = r.blob(16);
            refm::new_cid(seq, retire, &cid, token)
        }
        "retire_cid" => Rec::new(kind, vec![("seq", U(r.int(bits)))]),
        "path_challenge" | "path_response" => Rec::new(kind, vec![("v", U(r.int(64)))]),
        "close" => {
            let n = r.len(o.max_data);
            let ftype = if r.flag() { vec![if r.flag() { r.below(0x20) } else { r.int(bits) }] } else { vec![] };
            refm::close(r.int(bits), ftype, r.blob(n))
        }
        _ => Rec::new(kind, vec![]),
    }
}

pub fn frame(r: &mut Rng, o: &FrameOpts) -> Rec {
    let kind = *r.pick(&KINDS);
    frame_of(r, kind, o)
}

/// A frame that is allowed in packets of the kind
pub fn frame_for(r: &mut Rng, packet: &str, o: &FrameOpts) -> Rec {
    loop {
        let f = frame(r, o);
        let early = matches!(&f.kind[..], "padding" | "ping" | "ack" | "crypto");
        let ok = match packet {
            "initial" | "handshake" => early || (f.kind == "close" && !f.flag("app")),
            "zerortt" => !matches!(&f.kind[..], "ack" | "crypto" | "new_token" | "path_response" | "retire_cid" | "handshake_done"),
            _ => true,
        };
        if ok {
            return f;
        }
    }
}

pub fn frames_for(r: &mut Rng, packet: &str, max_data: usize) -> Vec<Rec> {
    // together not more than a datagram
    let max_data = if max_data > 20000 { max_data / 3 } else { max_data };
    let o = FrameOpts { max_data, bits: 62, sane: true };
    let many = max_data > 1000 && r.chance(1, 200);
    let count = if many { let most = *r.pick(&[700, 1400]); r.range(1, most) } else { r.range(1, 4) };
    let few = FrameOpts { max_data: if many { 20 } else { max_data }, bits: 62, sane: true };
    let o = if many { few } else { o };
    let mut v: Vec<Rec> = (0..count).map(|_| frame_for(r, packet, &o)).collect();
    again(r, &mut v);
    if r.chance(1, 3) {
        let n = r.len(40);
        v.extend((0..n).map(|_| Rec::new("padding", vec![])));
    }
    v
}

/// Now and then the same frame twice, side by side or not
pub fn again(r: &mut Rng, v: &mut Vec<Rec>) {
    if !v.is_empty() && r.chance(1, 8) {
        let i = r.below(v.len() as u64) as usize;
        let f = v[i].clone();
        let j = if r.flag() { i } else { r.below(v.len() as u64 + 1) as usize };
        v.insert(j, f);
    }
}

pub fn any_form(r: &mut Rng) -> impl FnMut(u64) -> usize + '_ {
    move |_| if r.chance(1, 4) { *r.pick(&[1, 2, 4, 8]) } else { 1 }
}

/// Payload bytes of any kind: valid, damaged, or nothing in particular
pub fn payload(r: &mut Rng, max_data: usize) -> Vec<u8> {
    let o = FrameOpts { max_data, bits: 62, sane: false };
    match r.below(11) {
        10 => {
            // an id of any length, in the middle of other frames
            let mut v = if r.flag() { vec![1] } else { vec![] };
            v.push(0x18);
            v.extend(refm::vi(r.int(62)));
            v.extend(refm::vi(r.int(62)));
            let n = if r.flag() { *r.pick(&[0, 1, 8, 19, 20, 21, 22, 32, 64, 128, 255]) } else { r.byte() as usize };
            v.push(n as u8);
            v.extend(r.blob(n));
            v.extend(r.blob(16));
            if r.flag() {
                v.push(1);
            }
            if r.chance(1, 8) {
                v.pop();
            }
            v
        }
        0 => {
            let n = r.len(200);
            r.bytes(n)
        }
        1 => {
            // a frame type and whatever
            let n = r.len(40);
            let mut v = vec![r.below(0x20) as u8];
            v.extend(r.blob(n));
            v
        }
        2 => {
            // bytes that look like types, lengths and integers
            let n = r.len(60);
            (0..n).map(|_| *r.pick(&[0, 1, 2, 3, 4, 6, 7, 8, 0x0a, 0x0c, 0x0e, 0x0f, 0x18, 0x1a, 0x1c, 0x1e, 0x1f, 0x40, 0x7f, 0x80, 0xc0, 0xff])).collect()
        }
        x => {
            let many = max_data > 1000 && r.chance(1, 300);
            let n = if many { r.range(1, 1500) } else { r.range(1, 4) };
            let o = FrameOpts { max_data: if many { 20 } else { max_data }, ..o };
            let mut fs: Vec<Rec> = (0..n).map(|_| frame(r, &o)).collect();
            again(r, &mut fs);
            let end = r.flag();
            let mut v = refm::put_frames(&fs, end, &mut any_form(r));
            if x >= 7 {
                damage(r, &mut v);
            }
            v
        }
    }
}

/// Alters bytes somehow; may leave them as they were
pub fn damage(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let n = v.len() as u64;
        match r.below(9) {
            0 if n > 0 => {
                let i = r.below(n) as usize;
                v[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.below(n) as usize;
                v[i] = *r.pick(&[0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff]);
            }
            2 => {
                let k = r.below(n + 1) as usize;
                v.truncate(k);
            }
            3 => {
                let k = r.len(30);
                let b = r.blob(k);
                v.extend(b);
            }
            4 if n > 0 => {
                let i = r.below(n) as usize;
                v.remove(i);
            }
            5 => {
                let i = r.below(n + 1) as usize;
                v.insert(i, r.byte());
            }
            6 if n > 1 => {
                // the largest integer of each form in place of something
                let i = r.below(n) as usize;
                let rep: &[u8] = *r.pick(&[
                    &[0x7f, 0xff][..], &[0xbf, 0xff, 0xff, 0xff], &[0xff; 8], &[0x80, 0, 0, 0], &[0xc0, 0, 0, 0, 0, 0, 0, 0],
                    &[0xc0, 0, 0, 1, 0, 0, 0, 0], &[0x80, 0x10, 0, 0],
                ]);
                for (k, b) in rep.iter().enumerate() {
                    if i + k < v.len() {
                        v[i + k] = *b;
                    }
                }
            }
            7 if n > 2 => {
                let (i, j) = (r.below(n) as usize, r.below(n) as usize);
                v.swap(i, j);
            }
            _ if n > 0 => {
                // off by one
                let i = r.below(n) as usize;
                v[i] = if r.flag() { v[i].wrapping_add(1) } else { v[i].wrapping_sub(1) };
            }
            _ => {}
        }
    }
}

pub fn id(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(4) {
        0 => 8,
        1 => *r.pick(&[0, 1, 7, 9, 15, 16, 17, 19, 20]),
        _ => r.below(21) as usize,
    };
    let n = n.min(max);
    r.blob(n)
}

pub fn secret_pair(r: &mut Rng) -> Option<(Vec<u8>, Vec<u8>)> {
    Some((r.bytes(32), r.bytes(32)))
}

/// A connection end with keys in all spaces, somewhere in its history
pub fn end(r: &mut Rng) -> End {
    let dcid = id(r, 20);
    let mut e = End::new(r.flag(), &dcid);
    e.scid = Some(id(r, 20));
    e.secrets = [secret_pair(r), secret_pair(r)];
    for i in 0..3 {
        if r.flag() {
            e.received[i] = Some(r.int(61));
        }
    }
    e
}

/// A packet number and its length such that a receiver at largest recovers it
pub fn pn_for(r: &mut Rng, largest: Option<u64>) -> (u64, usize) {
    let n = r.range(1, 4) as usize;
    let win = 1u64 << (8 * n);
    match largest {
        None => (r.int(8 * n as u32), n),
        Some(l) => {
            let expected = l + 1;
            // (expected - win/2, expected + win/2]
            let d = match r.below(4) {
                0 => *r.pick(&[0, 1, win / 2 - 1, win / 2 - 2]),
                _ => r.below(win / 2),
            };
            let pn = if r.flag() { expected.saturating_sub(d) } else { expected + d + r.chance(1, 8) as u64 };
            let pn = pn.min(refm::MAX_VARINT);
            if refm::reconstruct(largest, &pn.to_be_bytes()[8 - n..]) == pn { (pn, n) } else { (expected, n) }
        }
    }
}

pub const PROTECTED: [&str; 4] = ["initial", "zerortt", "handshake", "onertt"];

/// Versions of QUIC other than 1, and numbers that look like versions
pub fn other_version(r: &mut Rng) -> u32 {
    *r.pick(&[2, 3, 0x6b33_43cf, 0x709a_50c4, 0xff00_001d, 0xff00_0020, 0xff00_0022, 0x0a0a_0a0a, 0xfafa_fafa, 0x5130_3530, 0xffff_ffff, 0x0100_0000, 0x8000_0001, 0x8000_0000])
}

pub fn forms(r: &mut Rng) -> usize {
    if r.chance(1, 4) { *r.pick(&[1, 2, 4, 8]) } else { 1 }
}

/// Length of a token; of four bytes where large data is wanted
pub fn token_len(r: &mut Rng, max_data: usize, max: usize) -> usize {
    if max_data > 20000 && r.chance(1, 3) { *r.pick(&[16383, 16384, 16385, 20000]) } else { r.len(max) }
}

/// A packet a conforming peer of the end may send
pub fn packet_for(r: &mut Rng, e: &End, kind: &'static str, max_data: usize) -> (Plain, Vec<Rec>) {
    let space = refm::Space::of(kind);
    let (pn, n) = pn_for(r, e.received[space.idx()]);
    let mut fs = if max_data > 20000 && r.flag() {
        // as much as a datagram holds
        let k = *r.pick(&[16383, 16384, 20000, 32768, max_data - 1, max_data]);
        let data = r.blob(k);
        let off = r.below(100);
        vec![if kind == "initial" || kind == "handshake" { refm::crypto(off, data) } else { refm::stream(r.below(9), off, data, false) }]
    } else {
        frames_for(r, kind, max_data)
    };
    let end = kind == "onertt" && r.flag() || r.chance(1, 4);
    let mut pt = refm::put_frames(&fs, end, &mut any_form(r));
    while pt.len() + n < 4 {
        // room for the header protection sample
        fs.insert(0, Rec::new("padding", vec![]));
        pt.insert(0, 0);
    }
    let token = if kind == "initial" && r.flag() { let k = token_len(r, max_data, 200); r.blob(k) } else { vec![] };
    let scid = id(r, 20);
    let dcid = if kind == "onertt" { r.blob(8) } else { id(r, 20) };
    let bits = if kind == "onertt" { r.byte() & 0x24 } else { 0 };
    (
        Plain { kind, bits, version: 1, dcid, scid, token, pn, n, pt, len_form: forms(r), token_form: forms(r) },
        fs,
    )
}

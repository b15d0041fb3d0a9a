//! Reference implementation of the specification, used to build what a conforming peer
//! sends and to pick, out of large numbers of cases, those worth judging.  It never decides:
//! the TLA+ specification does.
use quic_sea::verif::{Rec, Val};
use ring::{aead, hmac};

pub const MAX_VARINT: u64 = (1 << 62) - 1;

// ---------------------------------------------------------------- integers

pub fn vi_len(x: u64) -> usize {
    if x < 1 << 6 { 1 } else if x < 1 << 14 { 2 } else if x < 1 << 30 { 4 } else { 8 }
}

pub fn vi_as(x: u64, n: usize) -> Vec<u8> {
    let mut v = x.to_be_bytes()[8 - n..].to_vec();
    v[0] |= match n { 1 => 0, 2 => 0x40, 4 => 0x80, _ => 0xc0 };
    v
}

pub fn vi(x: u64) -> Vec<u8> {
    vi_as(x, vi_len(x))
}

pub fn vi_at(bs: &[u8], p: &mut usize) -> Option<u64> {
    let first = *bs.get(*p)?;
    let n = 1usize << (first >> 6);
    if bs.len() - *p < n {
        return None;
    }
    let mut x = (first & 0x3f) as u64;
    for i in 1..n {
        x = (x << 8) | bs[*p + i] as u64;
    }
    *p += n;
    Some(x)
}

fn take<'a>(bs: &'a [u8], p: &mut usize, n: u64) -> Option<&'a [u8]> {
    if ((bs.len() - *p) as u64) < n {
        return None;
    }
    let rv = &bs[*p..*p + n as usize];
    *p += n as usize;
    Some(rv)
}

// ------------------------------------------------------------------ frames

fn left_pad20(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 20];
    v[20 - b.len()..].copy_from_slice(b);
    v
}

pub fn frame_at(bs: &[u8], p: &mut usize) -> Option<Rec> {
    use Val::*;
    let ty = vi_at(bs, p)?;
    macro_rules! int { () => { vi_at(bs, p)? }; }
    Some(match ty {
        0 => Rec::new("padding", vec![]),
        1 => Rec::new("ping", vec![]),
        2 | 3 => {
            let (largest, delay, count, first) = (int!(), int!(), int!(), int!());
            let mut ranges = vec![];
            if count > bs.len() as u64 {
                return None;
            }
            for _ in 0..count * 2 {
                ranges.push(int!());
            }
            let ecn = if ty == 3 { vec![int!(), int!(), int!()] } else { vec![] };
            ack(largest, delay, first, ranges, ecn)
        }
        4 => Rec::new("reset_stream", vec![("id", U(int!())), ("err", U(int!())), ("size", U(int!()))]),
        5 => Rec::new("stop_sending", vec![("id", U(int!())), ("err", U(int!()))]),
        6 => {
            let (off, len) = (int!(), int!());
            crypto(off, take(bs, p, len)?.to_vec())
        }
        7 => {
            let len = int!();
            new_token(take(bs, p, len)?.to_vec())
        }
        8..=15 => {
            let id = int!();
            let off = if ty & 4 != 0 { int!() } else { 0 };
            let len = if ty & 2 != 0 { int!() } else { (bs.len() - *p) as u64 };
            stream(id, off, take(bs, p, len)?.to_vec(), ty & 1 != 0)
        }
        16 => Rec::new("max_data", vec![("v", U(int!()))]),
        17 => Rec::new("max_stream_data", vec![("id", U(int!())), ("v", U(int!()))]),
        18 | 19 => Rec::new("max_streams", vec![("v", U(int!())), ("uni", F(ty == 19))]),
        20 => Rec::new("data_blocked", vec![("v", U(int!()))]),
        21 => Rec::new("stream_data_blocked", vec![("id", U(int!())), ("v", U(int!()))]),
        22 | 23 => Rec::new("streams_blocked", vec![("v", U(int!())), ("uni", F(ty == 23))]),
        24 => {
            let (seq, retire) = (int!(), int!());
            let len = *bs.get(*p)?;
            *p += 1;
            if len < 1 || len > 20 {
                return None;
            }
            let cid = take(bs, p, len as u64)?.to_vec();
            let token = take(bs, p, 16)?.to_vec();
            new_cid(seq, retire, &cid, token)
        }
        25 => Rec::new("retire_cid", vec![("seq", U(int!()))]),
        26 | 27 => {
            let b = take(bs, p, 8)?;
            let v = b.iter().fold(0u64, |a, x| (a << 8) | *x as u64);
            Rec::new(if ty == 26 { "path_challenge" } else { "path_response" }, vec![("v", U(v))])
        }
        28 | 29 => {
            let err = int!();
            let ftype = if ty == 28 { vec![int!()] } else { vec![] };
            let len = int!();
            close(err, ftype, take(bs, p, len)?.to_vec())
        }
        30 => Rec::new("handshake_done", vec![]),
        _ => return None,
    })
}

pub fn frames_of(bs: &[u8]) -> Option<Vec<Rec>> {
    let mut p = 0;
    let mut rv = vec![];
    while p < bs.len() {
        rv.push(frame_at(bs, &mut p)?);
    }
    Some(rv)
}

pub fn ack(largest: u64, delay: u64, first: u64, ranges: Vec<u64>, ecn: Vec<u64>) -> Rec {
    use Val::*;
    Rec::new("ack", vec![("largest", U(largest)), ("delay", U(delay)),
        ("count", U(ranges.len() as u64 / 2)), ("first", U(first)), ("ranges", L(ranges)), ("ecn", L(ecn))])
}
pub fn crypto(off: u64, data: Vec<u8>) -> Rec {
    Rec::new("crypto", vec![("off", Val::U(off)), ("len", Val::U(data.len() as u64)), ("data", Val::B(data))])
}
pub fn new_token(data: Vec<u8>) -> Rec {
    Rec::new("new_token", vec![("len", Val::U(data.len() as u64)), ("data", Val::B(data))])
}
pub fn stream(id: u64, off: u64, data: Vec<u8>, fin: bool) -> Rec {
    Rec::new("stream", vec![("id", Val::U(id)), ("off", Val::U(off)),
        ("len", Val::U(data.len() as u64)), ("data", Val::B(data)), ("fin", Val::F(fin))])
}
/// cid: the bytes of the id; the record has them padded to 20
pub fn new_cid(seq: u64, retire: u64, cid: &[u8], token: Vec<u8>) -> Rec {
    Rec::new("new_cid", vec![("seq", Val::U(seq)), ("retire", Val::U(retire)),
        ("len", Val::U(cid.len() as u64)), ("cid", Val::B(left_pad20(cid))), ("token", Val::B(token))])
}
pub fn close(err: u64, ftype: Vec<u64>, data: Vec<u8>) -> Rec {
    let app = ftype.is_empty();
    Rec::new("close", vec![("err", Val::U(err)), ("ftype", Val::L(ftype)),
        ("len", Val::U(data.len() as u64)), ("data", Val::B(data)), ("app", Val::F(app))])
}

/// The same frame as the library's constructors want it: connection ids unpadded
pub fn buildable(r: &Rec) -> Rec {
    let mut r = r.clone();
    if r.kind == "new_cid" {
        let n = r.int("len") as usize;
        let cid = r.bytes("cid")[20 - n..].to_vec();
        for f in r.fields.iter_mut() {
            if f.0 == "cid" {
                f.1 = Val::B(cid.clone());
            }
        }
    }
    r
}

/// Writes a frame; form chooses the length of each integer given its value
pub fn put_frame(r: &Rec, last: bool, form: &mut dyn FnMut(u64) -> usize, out: &mut Vec<u8>) {
    let mut int = |x: u64, out: &mut Vec<u8>| {
        let n = form(x).max(vi_len(x));
        out.extend(vi_as(x, n))
    };
    macro_rules! u { ($name:expr) => { int(r.int($name), out) }; }
    match &r.kind[..] {
        "padding" => out.push(0),
        "ping" => out.push(1),
        "ack" => {
            out.push(if r.list("ecn").is_empty() { 2 } else { 3 });
            u!("largest");
            u!("delay");
            u!("count");
            u!("first");
            for x in r.list("ranges").iter().chain(r.list("ecn").iter()) {
                int(*x, out);
            }
        }
        "reset_stream" => { out.push(4); u!("id"); u!("err"); u!("size") }
        "stop_sending" => { out.push(5); u!("id"); u!("err") }
        "crypto" => { out.push(6); u!("off"); u!("len"); out.extend(r.bytes("data")) }
        "new_token" => { out.push(7); u!("len"); out.extend(r.bytes("data")) }
        "stream" => {
            let off = r.int("off") != 0;
            out.push(8 + if off { 4 } else { 0 } + if last { 0 } else { 2 } + r.flag("fin") as u8);
            u!("id");
            if off { u!("off") }
            if !last { u!("len") }
            out.extend(r.bytes("data"))
        }
        "max_data" => { out.push(16); u!("v") }
        "max_stream_data" => { out.push(17); u!("id"); u!("v") }
        "max_streams" => { out.push(18 + r.flag("uni") as u8); u!("v") }
        "data_blocked" => { out.push(20); u!("v") }
        "stream_data_blocked" => { out.push(21); u!("id"); u!("v") }
        "streams_blocked" => { out.push(22 + r.flag("uni") as u8); u!("v") }
        "new_cid" => {
            out.push(24);
            u!("seq");
            u!("retire");
            let n = r.int("len") as usize;
            out.push(n as u8);
            out.extend(&r.bytes("cid")[20 - n..]);
            out.extend(r.bytes("token"))
        }
        "retire_cid" => { out.push(25); u!("seq") }
        "path_challenge" => { out.push(26); out.extend(r.int("v").to_be_bytes()) }
        "path_response" => { out.push(27); out.extend(r.int("v").to_be_bytes()) }
        "close" => {
            out.push(28 + r.flag("app") as u8);
            u!("err");
            for x in r.list("ftype") { int(x, out) }
            u!("len");
            out.extend(r.bytes("data"))
        }
        "handshake_done" => out.push(30),
        x => panic!("unknown frame {}", x),
    }
}

pub fn put_frames(rs: &[Rec], end: bool, form: &mut dyn FnMut(u64) -> usize) -> Vec<u8> {
    let mut out = vec![];
    for (i, r) in rs.iter().enumerate() {
        put_frame(r, end && i + 1 == rs.len(), form, &mut out);
    }
    out
}

/// All integers of the frame fit their encoding
pub fn encodable(r: &Rec) -> bool {
    if r.kind.starts_with("path_") {
        return true;
    }
    r.fields.iter().all(|(_, v)| match v {
        Val::U(x) => *x <= MAX_VARINT,
        Val::L(xs) => xs.iter().all(|x| *x <= MAX_VARINT),
        _ => true,
    })
}

// ----------------------------------------------------------------- headers

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Header {
    pub long: bool,
    pub b: u8,
    pub version: u32,
    pub kind: &'static str,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
}

pub fn header_at(bs: &[u8], p: &mut usize) -> Option<Header> {
    let b = *bs.get(*p)?;
    *p += 1;
    if b < 0x80 {
        let dcid = take(bs, p, 8)?.to_vec();
        return Some(Header { long: false, b, version: 0, kind: "onertt", dcid, scid: vec![] });
    }
    let v = take(bs, p, 4)?;
    let version = u32::from_be_bytes([v[0], v[1], v[2], v[3]]);
    let max = if version == 0 { 255 } else { 20 };
    let mut id = || -> Option<Vec<u8>> {
        let n = take(bs, p, 1)?[0];
        if n > max {
            return None;
        }
        Some(take(bs, p, n as u64)?.to_vec())
    };
    let dcid = id()?;
    let scid = id()?;
    let kind = if version == 0 { "vn" } else { ["initial", "zerortt", "handshake", "retry"][((b >> 4) & 3) as usize] };
    Some(Header { long: true, b, version, kind, dcid, scid })
}

pub fn put_header(h: &Header) -> Vec<u8> {
    let mut v = vec![h.b];
    if h.long {
        v.extend(h.version.to_be_bytes());
        v.push(h.dcid.len() as u8);
        v.extend(&h.dcid);
        v.push(h.scid.len() as u8);
        v.extend(&h.scid);
    } else {
        v.extend(&h.dcid);
    }
    v
}

// ---------------------------------------------------------- packet numbers

pub fn reconstruct(largest: Option<u64>, t: &[u8]) -> u64 {
    let expected = largest.map_or(0, |x| x + 1) as i128;
    let win = 1i128 << (8 * t.len());
    let low = t.iter().fold(0i128, |a, x| (a << 8) | *x as i128);
    let candidate = (expected & !(win - 1)) | low;
    (if candidate <= expected - win / 2 && candidate < (1 << 62) - win {
        candidate + win
    } else if candidate > expected + win / 2 && candidate >= win {
        candidate - win
    } else {
        candidate
    }) as u64
}

/// number of bytes a conforming sender may use at least
pub fn safe_len(pn: u64, acked: Option<u64>) -> usize {
    (1..=4)
        .find(|n| match acked {
            None => pn < 1u64 << (8 * n),
            Some(a) => pn - a <= 1u64 << (8 * n - 1),
        })
        .unwrap_or(5)
}

// -------------------------------------------------------------------- keys

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Keys {
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub hp: Vec<u8>,
}

pub const SALT: [u8; 20] = [
    0x38, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c, 0xad,
    0xcc, 0xbb, 0x7f, 0x0a,
];

pub fn hmac256(key: &[u8], data: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, key), data).as_ref().to_vec()
}

/// Points of HKDF-Extract and HKDF-Expand that were evaluated
#[derive(Default, Clone)]
pub struct Kdf {
    pub extract: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    pub expand: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>,
}

impl Kdf {
    pub fn extract(&mut self, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
        let prk = hmac256(salt, ikm);
        self.extract.push((salt.to_vec(), ikm.to_vec(), prk.clone()));
        prk
    }
    pub fn expand(&mut self, prk: &[u8], label: &str, n: usize) -> Vec<u8> {
        let full = format!("tls13 {}", label);
        let mut info = vec![0, n as u8, full.len() as u8];
        info.extend(full.as_bytes());
        info.push(0);
        let mut data = info.clone();
        data.push(1);
        let out = hmac256(prk, &data)[..n].to_vec();
        self.expand.push((prk.to_vec(), info, out.clone()));
        out
    }
    pub fn keys(&mut self, secret: &[u8]) -> Keys {
        Keys {
            key: self.expand(secret, "quic key", 16),
            iv: self.expand(secret, "quic iv", 12),
            hp: self.expand(secret, "quic hp", 16),
        }
    }
    pub fn initial(&mut self, server: bool, dcid: &[u8]) -> Keys {
        let prk = self.extract(&SALT, dcid);
        let s = self.expand(&prk, if server { "server in" } else { "client in" }, 32);
        self.keys(&s)
    }
}

pub fn secret_keys(secret: &[u8]) -> Keys {
    Kdf::default().keys(secret)
}
pub fn initial_keys(server: bool, dcid: &[u8]) -> Keys {
    Kdf::default().initial(server, dcid)
}

pub fn nonce(iv: &[u8], pn: u64) -> Vec<u8> {
    let mut v = iv.to_vec();
    for (i, b) in pn.to_be_bytes().iter().enumerate() {
        v[4 + i] ^= b;
    }
    v
}

fn gcm(key: &[u8]) -> aead::LessSafeKey {
    aead::LessSafeKey::new(aead::UnboundKey::new(&aead::AES_128_GCM, key).unwrap())
}

pub fn gcm_seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut v = pt.to_vec();
    gcm(key)
        .seal_in_place_append_tag(aead::Nonce::try_assume_unique_for_key(nonce).unwrap(), aead::Aad::from(aad), &mut v)
        .unwrap();
    v
}

pub fn gcm_open(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    let mut v = ct.to_vec();
    let n = gcm(key)
        .open_in_place(aead::Nonce::try_assume_unique_for_key(nonce).unwrap(), aead::Aad::from(aad), &mut v)
        .ok()?
        .len();
    v.truncate(n);
    Some(v)
}

pub fn hp_mask(hp: &[u8], sample: &[u8]) -> [u8; 5] {
    aead::quic::HeaderProtectionKey::new(&aead::quic::AES_128, hp).unwrap().new_mask(sample).unwrap()
}

/// Points of the ideal functions, for the judge
#[derive(Default, Clone)]
pub struct Oracle {
    pub masks: Vec<(Vec<u8>, Vec<u8>, [u8; 5])>,
    pub sealed: Vec<Sealed>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sealed {
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
    pub aad: Vec<u8>,
    pub ct: Vec<u8>,
    pub pt: Vec<u8>,
}

impl Oracle {
    pub fn mask(&mut self, hp: &[u8], sample: &[u8]) -> [u8; 5] {
        let m = hp_mask(hp, sample);
        if !self.masks.iter().any(|x| x.0 == hp && x.1 == sample) {
            self.masks.push((hp.to_vec(), sample.to_vec(), m));
        }
        m
    }
    pub fn seal(&mut self, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let ct = gcm_seal(key, nonce, aad, pt);
        self.sealed.push(Sealed { key: key.to_vec(), nonce: nonce.to_vec(), aad: aad.to_vec(), ct: ct.clone(), pt: pt.to_vec() });
        ct
    }
    /// Notes what somebody sealed if it opens
    pub fn open(&mut self, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        let pt = gcm_open(key, nonce, aad, ct)?;
        let s = Sealed { key: key.to_vec(), nonce: nonce.to_vec(), aad: aad.to_vec(), ct: ct.to_vec(), pt: pt.clone() };
        if !self.sealed.contains(&s) {
            self.sealed.push(s);
        }
        Some(pt)
    }
}

// ----------------------------------------------------------------- packets

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Space {
    Initial,
    Handshake,
    App,
}
pub const SPACES: [Space; 3] = [Space::Initial, Space::Handshake, Space::App];
impl Space {
    pub fn idx(self) -> usize {
        match self { Space::Initial => 0, Space::Handshake => 1, Space::App => 2 }
    }
    pub fn name(self) -> &'static str {
        ["initial", "handshake", "app"][self.idx()]
    }
    pub fn of(kind: &str) -> Space {
        match kind { "initial" => Space::Initial, "handshake" => Space::Handshake, _ => Space::App }
    }
}

/// Receiving state of a connection
#[derive(Debug, Clone)]
pub struct Rx {
    pub keys: [Option<Keys>; 3],
    pub largest: [Option<u64>; 3],
}

/// A packet to be protected
#[derive(Debug, Clone)]
pub struct Plain {
    pub kind: &'static str,
    /// reserved bits, spin bit, key phase etc. as they go into the first byte
    pub bits: u8,
    pub version: u32,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
    pub token: Vec<u8>,
    pub pn: u64,
    pub n: usize,
    pub pt: Vec<u8>,
    /// length of the length field and of the token length field, at least
    pub len_form: usize,
    pub token_form: usize,
}

pub fn first_byte(kind: &str, bits: u8, n: usize) -> u8 {
    let n = (n - 1) as u8;
    match kind {
        "initial" => 0xc0 | (bits & 0x0c) | n,
        "zerortt" => 0xd0 | (bits & 0x0c) | n,
        "handshake" => 0xe0 | (bits & 0x0c) | n,
        _ => 0x40 | (bits & 0x3c) | n,
    }
}

pub fn protect(x: &Plain, k: &Keys, o: &mut Oracle) -> Vec<u8> {
    let h = Header {
        long: x.kind != "onertt", b: first_byte(x.kind, x.bits, x.n), version: x.version, kind: x.kind,
        dcid: x.dcid.clone(), scid: x.scid.clone(),
    };
    let mut head = put_header(&h);
    let form = |v: u64, n: usize| vi_as(v, n.max(vi_len(v)));
    if x.kind == "initial" {
        head.extend(form(x.token.len() as u64, x.token_form));
        head.extend(&x.token);
    }
    if x.kind != "onertt" {
        head.extend(form((x.n + x.pt.len() + 16) as u64, x.len_form));
    }
    let off = head.len();
    head.extend(&x.pn.to_be_bytes()[8 - x.n..]);
    let ct = o.seal(&k.key, &nonce(&k.iv, x.pn), &head, &x.pt);
    let mut pkt = head;
    pkt.extend(&ct);
    if pkt.len() >= off + 20 {
        let mask = o.mask(&k.hp, &pkt[off + 4..off + 20]);
        pkt[0] ^= mask[0] & if h.long { 0x0f } else { 0x1f };
        for i in 0..x.n {
            pkt[off + i] ^= mask[i + 1];
        }
    }
    pkt
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Got {
    pub kind: String,
    pub header: Vec<u8>,
    pub dlen: usize,
    pub dcid: Vec<u8>,
    pub slen: usize,
    pub scid: Vec<u8>,
    pub token: Vec<u8>,
    pub pn: u64,
    pub pnbytes: Vec<u8>,
    pub frames: Vec<Rec>,
    pub versions: Vec<u32>,
}

fn id20(b: &[u8]) -> Vec<u8> {
    if b.len() <= 20 { left_pad20(b) } else { vec![0; 20] }
}

/// Reads a datagram; o collects the points of the ideal functions that were needed
pub fn unprotect(bs: &[u8], c: &Rx, o: &mut Oracle) -> Option<Vec<Got>> {
    let mut p = 0;
    let mut rv = vec![];
    while p < bs.len() {
        rv.push(unprotect_one(bs, &mut p, c, o)?);
    }
    Some(rv)
}

fn unprotect_one(bs: &[u8], p: &mut usize, c: &Rx, o: &mut Oracle) -> Option<Got> {
    let start = *p;
    let h = header_at(bs, p)?;
    let mut got = Got {
        kind: h.kind.to_string(), header: vec![], dlen: h.dcid.len(), dcid: id20(&h.dcid), slen: h.scid.len(),
        scid: id20(&h.scid), token: vec![], pn: 0, pnbytes: vec![], frames: vec![], versions: vec![],
    };
    match h.kind {
        "vn" => {
            let rest = &bs[*p..];
            if rest.len() % 4 != 0 {
                return None;
            }
            got.versions = rest.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
            got.header = put_header(&h);
            *p = bs.len();
            return Some(got);
        }
        "retry" => return None,
        _ => {}
    }
    if h.kind == "initial" {
        let n = vi_at(bs, p)?;
        got.token = take(bs, p, n)?.to_vec();
    }
    let len = if h.kind == "onertt" { (bs.len() - *p) as u64 } else { vi_at(bs, p)? };
    let off = *p;
    take(bs, p, len)?;
    if len < 20 {
        return None;
    }
    let k = c.keys[Space::of(h.kind).idx()].as_ref()?;
    let mask = o.mask(&k.hp, &bs[off + 4..off + 20]);
    let b = h.b ^ (mask[0] & if h.long { 0x0f } else { 0x1f });
    let n = (b & 3) as usize + 1;
    got.pnbytes = (0..n).map(|i| bs[off + i] ^ mask[i + 1]).collect();
    got.pn = reconstruct(c.largest[Space::of(h.kind).idx()], &got.pnbytes);
    let mut aad = vec![b];
    aad.extend(&bs[start + 1..off]);
    aad.extend(&got.pnbytes);
    let pt = o.open(&k.key, &nonce(&k.iv, got.pn), &aad, &bs[off + n..*p])?;
    got.frames = frames_of(&pt)?;
    got.header = put_header(&Header { b, ..h });
    Some(got)
}

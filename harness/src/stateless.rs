//! Cases that are one call each: run on the code, compare with the native reference to pick
//! the interesting ones, write events for the judge.
use crate::alloc;
use crate::gen::{self, FrameOpts};
use crate::out::{self, call, Batch, Obj, Out};
use crate::refm::{self, Got, Keys, Oracle, Space};
use crate::rng::Rng;
use crate::sut::{self, pns, End};
use quic_sea::verif::{self, PacketHandshake, PacketInitial, Rec, Val};

/// Emits the event if it is to be judged anyway or the reference disagrees
pub fn emit(b: &mut Batch, keep: bool, suspicious: bool, event: impl FnOnce() -> String) {
    if suspicious {
        b.suspect(event);
    } else if keep || b.force {
        b.lines.push(event());
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    // values around every power of two first, then every string of one or two bytes, then random
    if i < 65 * 7 {
        let base = if i / 7 == 64 { 0 } else { 1u64 << (i / 7) };
        let x = base.wrapping_add(i % 7).wrapping_sub(3);
        vi_enc(x, b, true);
        for n in [1, 2, 4, 8] {
            if x <= refm::MAX_VARINT && n >= refm::vi_len(x) {
                let mut bs = refm::vi_as(x, n);
                vi_dec(&bs, b, true);
                let full = bs.clone();
                bs.extend(r.blob(2));
                vi_dec(&bs, b, true);
                for k in 0..full.len() {
                    vi_dec(&full[..k], b, true);
                }
            }
        }
    } else if i < 65 * 7 + 65536 {
        let v = (i - 65 * 7) as u16;
        if v < 256 {
            vi_dec(&[v as u8], b, v % 4 == 3);
        }
        vi_dec(&v.to_be_bytes(), b, v % 16 == 7 && keep);
        vi_enc(v as u64, b, v % 16 == 3 && keep);
    } else {
        let x = r.int(64);
        vi_enc(x, b, keep);
        let n = r.below(12) as usize;
        let mut bs = r.blob(n);
        if r.flag() {
            let x = r.int(62);
            let n = refm::vi_len(x).max(*r.pick(&[1, 2, 4, 8]));
            bs = refm::vi_as(x, n);
            let extra = r.below(4) as usize;
            bs.extend(r.blob(extra));
        }
        vi_dec(&bs, b, keep);
    }
}

fn vi_enc(x: u64, b: &mut Batch, keep: bool) {
    let got = call(|| verif::encode_var_int(x));
    let want = if x <= refm::MAX_VARINT { Out::Ok(refm::vi(x)) } else { Out::Err };
    b.count(&format!("encode to {} bytes", if x > refm::MAX_VARINT { 0 } else { refm::vi_len(x) }));
    emit(b, keep, got != want, || {
        let bs = got.clone().ok().unwrap_or_default();
        Obj::new("vi_enc").u("x", x).s("out", got.name()).b("bs", &bs).done()
    });
}

fn vi_dec(bs: &[u8], b: &mut Batch, keep: bool) {
    let mut p = 0;
    let want = match refm::vi_at(bs, &mut p) {
        Some(x) => Out::Ok((x, p)),
        None => Out::Err,
    };
    vi_dec_as(bs, want, b, keep);
}

pub fn vi_dec_as(bs: &[u8], want: Out<(u64, usize)>, b: &mut Batch, keep: bool) {
    b.count(if want.is_ok() { "decode complete" } else { "decode incomplete" });
    let left = |it: &mut dyn Iterator<Item = Result<u8, verif::Error>>| bs.len() - it.count();
    let calls: [(&str, Out<(u64, usize)>); 3] = [
        ("slice", call(|| verif::decode_var_int(bs))),
        ("stream", call(|| {
            let mut s = verif::make_result_stream(bs);
            verif::var_int_from_stream(&mut s).map(|x| (x, left(&mut s)))
        })),
        ("stream_with_bytes", call(|| {
            let mut s = verif::make_result_stream(bs);
            verif::var_int_with_bytes_from_stream(&mut s).map(|(x, v)| {
                let used = left(&mut s);
                // the bytes handed out are the bytes consumed
                (x, if used <= bs.len() && v[..] == bs[..used] { used } else { 99 })
            })
        })),
    ];
    for (f, got) in calls {
        emit(b, keep, got != want, || {
            let (x, used) = got.clone().ok().unwrap_or((0, 0));
            Obj::new("vi_dec").s("fn", f).b("bs", bs).s("out", got.name()).u("x", x).n("used", used).done()
        });
    }
}

// ----------------------------------------------------------- C02, C03

pub fn c02(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let max = if keep { 400 } else if i % 1024 == 32 { 60000 } else if i % 64 == 0 { 17000 } else { 1300 };
    let bits = if r.chance(1, 12) { 64 } else { 62 };
    let o = FrameOpts { max_data: max, bits, sane: r.flag() };
    let fs: Vec<Rec> = if (i as usize) < 2 * gen::KINDS.len() {
        vec![gen::frame_of(r, gen::KINDS[i as usize % gen::KINDS.len()], &o)]
    } else {
        let many = !keep && r.chance(1, 1000);
        let n = if many { let most = *r.pick(&[1500, 6000]); r.below(most) } else if r.chance(1, 40) { r.below(60) } else { r.below(6) };
        let o = FrameOpts { max_data: if many { 20 } else { max }, ..o };
        let mut fs: Vec<Rec> = (0..n).map(|_| gen::frame(r, &o)).collect();
        gen::again(r, &mut fs);
        fs
    };
    ser(&fs, r.flag(), b, keep);
}

pub fn ser(fs: &[Rec], end: bool, b: &mut Batch, keep: bool) {
    ser_as(fs, end, false, b, keep)
}

/// look: to be judged even if the reference has nothing against it
pub fn ser_as(fs: &[Rec], end: bool, look: bool, b: &mut Batch, keep: bool) {
    let got = sut::serialize(fs, end);
    let own = match &got {
        Out::Ok(bs) => sut::parse(bs),
        _ => Out::Err,
    };
    for f in fs {
        b.count(&format!("written {}", f.kind));
    }
    let fine = fs.iter().all(refm::encodable);
    let suspicious = match &got {
        Out::Ok(bs) => {
            let mut plus = bs.clone();
            plus.push(1);
            let mut fs_plus = fs.to_vec();
            fs_plus.push(Rec::new("ping", vec![]));
            !fine || refm::frames_of(bs).as_deref() != Some(fs) || own != Out::Ok(fs.to_vec())
                || (!end && refm::frames_of(&plus) != Some(fs_plus))
        }
        Out::Err => fine,
        Out::Panic => true,
    };
    emit(b, keep, suspicious || look, || {
        let bs = got.clone().ok().unwrap_or_default();
        let o = format!("{{\"out\":\"{}\",\"frames\":{}}}", own.name(), out::recs(&own.clone().ok().unwrap_or_default()));
        Obj::new("ser").raw("frames", &out::recs(fs)).f("end", end).s("out", got.name()).b("bs", &bs).raw("own", &o).done()
    });
}

fn small_frame(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => vec![*r.pick(&[0, 1, 30])],
        1 => { let k = r.range(1, 4) as usize; vec![*r.pick(&[2, 3]), 0, 0, 0, 0, 0, 0, 0][..4 + k].to_vec() }
        2 => { let x = r.int(62); [vec![*r.pick(&[0x10, 0x12, 0x14, 0x19])], refm::vi(x)].concat() }
        3 => vec![6, 0, 0],
        _ => vec![10, 1, 0],
    }
}

pub fn c03(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let bs = if i < 65536 {
        // every frame type in one and two bytes, followed by something
        let mut v = if i < 256 { vec![i as u8] } else { (i as u16).to_be_bytes().to_vec() };
        let n = r.len(40);
        v.extend(r.blob(n));
        v
    } else if i % 2048 == 33 && !keep {
        // very many small frames
        let n = r.range(500, 9000) as usize;
        let mut v: Vec<u8> = if r.flag() {
            small_frame(r).iter().cycle().take(n).cloned().collect()
        } else {
            let mut v = vec![];
            while v.len() < n {
                v.extend(small_frame(r));
            }
            v
        };
        if r.chance(1, 4) {
            v.pop();
        }
        v
    } else {
        gen::payload(r, if keep { 200 } else if i % 1024 == 32 { 60000 } else if i % 64 == 0 { 17000 } else { 1300 })
    };
    parse(&bs, b, keep || i < 64);
}

pub fn parse(bs: &[u8], b: &mut Batch, keep: bool) {
    let got = sut::parse(bs);
    let want = match refm::frames_of(bs) {
        Some(fs) => Out::Ok(fs),
        None => Out::Err,
    };
    match &want {
        Out::Ok(fs) => fs.iter().for_each(|f| b.count(&format!("read {}", f.kind))),
        _ => b.count("refused payload"),
    }
    emit(b, keep, got != want, || parse_event(bs, &got));
}

pub fn parse_event(bs: &[u8], got: &Out<Vec<Rec>>) -> String {
    Obj::new("parse").b("bs", bs).s("out", got.name()).raw("frames", &out::recs(&got.clone().ok().unwrap_or_default())).done()
}

// ---------------------------------------------------------------- C04

pub fn header_bytes(i: u64, r: &mut Rng) -> Vec<u8> {
    let long = r.chance(3, 4);
    let mut v = vec![r.byte() & 0x7f | if long { 0x80 } else { 0 }];
    if long {
        let version = match r.below(12) { 0..=5 => 1, 6..=8 => 0, 9 | 10 => gen::other_version(r), _ => r.int(32) as u32 };
        v.extend(version.to_be_bytes());
        let max = if version == 0 { 255 } else { 20 };
        for k in 0..2 {
            // all lengths in turn, and lengths just too long
            let n = match r.below(8) {
                0 => ((i / 2 + k) % (max + 1)) as usize,
                1 => (r.below(256)) as usize,
                2 => 20 + r.below(2) as usize,
                _ => r.below(21) as usize,
            };
            v.push(n as u8);
            v.extend(r.blob(n));
        }
    } else {
        v.extend(r.blob(8));
    }
    match r.below(4) {
        0 => {
            let k = r.below(v.len() as u64 + 1) as usize;
            v.truncate(k);
        }
        1 => {
            let n = r.len(30);
            v.extend(r.blob(n));
        }
        2 if r.chance(1, 3) => gen::damage(r, &mut v),
        _ => {}
    }
    v
}

pub fn c04(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    if i % 8 == 7 {
        // the version list, through the packet decoder
        let e = End::new(r.flag(), &[1, 2, 3]);
        if let Some(c) = e.connection() {
            let h = refm::Header {
                long: true, b: 0x80 | r.byte(), version: 0, kind: "vn",
                dcid: { let m = if r.flag() { 21 } else { 256 }; let n = r.below(m) as usize; r.blob(n) },
                scid: { let m = if r.flag() { 21 } else { 256 }; let n = r.below(m) as usize; r.blob(n) },
            };
            let mut bs = refm::put_header(&h);
            let n = r.below(8) as usize * 4 + if r.chance(1, 4) { r.below(4) as usize } else { 0 };
            bs.extend(r.blob(n));
            let mut o = Oracle::default();
            decode_case(&e, &c, &bs, &mut o, false, false, true, b, keep);
        }
        return;
    }
    let bs = header_bytes(i, r);
    let mut p = 0;
    let want = refm::header_at(&bs, &mut p).map(|h| (h, p));
    header_as(&bs, want, b, keep);
}

pub fn header_as(bs: &[u8], want: Option<(refm::Header, usize)>, b: &mut Batch, keep: bool) {
    let got = sut::header(bs);
    b.count(&match &want { Some((h, _)) => format!("header {}", h.kind), None => "bad header".to_string() });
    let suspicious = match (&got, &want) {
        (Out::Err, None) => false,
        (Out::Ok(g), Some((w, p))) => {
            let p = *p;
            let id = |n: u8, x: &[u8; 20], y: &[u8]| n as usize == y.len() && (y.len() > 20 || x[20 - y.len()..] == *y && x[..20 - y.len()].iter().all(|z| *z == 0));
            !(g.is_long == w.long && sut::type_name(&g.packet_type) == w.kind && g.bytes == bs[..p]
                && id(g.dcid_len, &g.dcid, &w.dcid)
                && (!w.long || g.version == w.version && id(g.scid_len, &g.scid, &w.scid)))
        }
        _ => true,
    };
    emit(b, keep, suspicious, || {
        let e = Obj::new("header").b("bs", bs).s("out", got.name());
        match &got {
            Out::Ok(g) => e.f("long", g.is_long).s("type", sut::type_name(&g.packet_type)).b("version", &g.version.to_be_bytes())
                .n("dlen", g.dcid_len as usize).b("dcid", &g.dcid).n("slen", g.scid_len as usize).b("scid", &g.scid)
                .b("bytes", &g.bytes).done(),
            _ => e.done(),
        }
    });
}

// ---------------------------------------------------------------- C05

pub fn c05(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let space = *r.pick(&refm::SPACES);
    if i % 2 == 0 {
        let n = r.range(1, 4) as usize;
        let largest = if r.chance(1, 10) { None } else { Some(r.int(62).min(refm::MAX_VARINT - 1)) };
        // numbers at the edges of the window, or any digits
        let t = match (r.below(3), largest) {
            (0, Some(l)) => {
                let half = 1u64 << (8 * n - 1);
                let d = *r.pick(&[0, 1, half - 2, half - 1, half, half + 1, 2 * half - 1]);
                let x = if r.flag() { (l + 1).wrapping_add(d) } else { (l + 1).wrapping_sub(d) };
                x.to_be_bytes()[8 - n..].to_vec()
            }
            _ => r.blob(n),
        };
        let mut e = End::new(r.flag(), &[]);
        // other spaces elsewhere
        e.received = [r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61))];
        e.received[space.idx()] = largest;
        e.acked = [r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61))];
        let c = match e.connection() { Some(c) => c, None => return };
        let got = call(|| c.reconstruct_remote_pn(pns(space), &t));
        let want = refm::reconstruct(largest, &t);
        b.count(&format!("reconstructed {} bytes {}", n, space.name()));
        emit(b, keep, got != Out::Ok(want), || recon_event(space, largest, &t, &got));
    } else {
        let pn = r.int(62).max(1);
        let acked = if r.chance(1, 6) || pn == 0 { None } else {
            let d = match r.below(3) { 0 => r.int(36), 1 => *r.pick(&[1, 127, 128, 129, 255, 256, 32767, 32768, 32769, 1 << 23, (1 << 23) + 1, (1 << 23) - 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32]), _ => r.int(20) };
            pn.checked_sub(d.max(1))
        };
        let mut e = End::new(r.flag(), &[]);
        // what was received, and other spaces, make no difference
        e.received = [r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61))];
        if r.flag() {
            e.received[space.idx()] = Some((pn - 1).saturating_sub(r.int(16)));
        }
        e.acked = [r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61)), r.flag().then(|| r.int(61))];
        e.acked[space.idx()] = acked;
        e.last_sent[space.idx()] = Some(pn - 1);
        let mut c = match e.connection() { Some(c) => c, None => return };
        let got = call(|| c.get_next_pn(pns(space)));
        b.count(&format!("truncated {}", space.name()));
        let safe = refm::safe_len(pn, acked);
        let safe4 = acked.map_or(safe <= 4, |a| pn - a < 1 << 31);
        let suspicious = match &got {
            Out::Ok((x, t)) => *x != pn || if t.len() <= 4 && !t.is_empty() { t.len() < safe || t[..] != pn.to_be_bytes()[8 - t.len()..] } else { safe4 },
            Out::Err => safe4,
            Out::Panic => true,
        };
        emit(b, keep, suspicious, || trunc_event(space, pn, acked, &got));
    }
}

pub fn recon_event(space: Space, largest: Option<u64>, t: &[u8], got: &Out<u64>) -> String {
    Obj::new("recon").s("space", space.name()).ou("largest", largest).b("t", t).s("out", got.name())
        .u("pn", got.clone().ok().unwrap_or(0)).done()
}

pub fn trunc_event(space: Space, pn: u64, acked: Option<u64>, got: &Out<(u64, Vec<u8>)>) -> String {
    let (x, t) = got.clone().ok().unwrap_or((0, vec![]));
    Obj::new("trunc").s("space", space.name()).u("want", pn).ou("acked", acked).s("out", got.name()).u("pn", x).b("bytes", &t).done()
}

// ------------------------------------------------- C07, C08, C09, C12, C19

/// One decode of a datagram on a connection.  trusted: whatever opens was sealed by a
/// peer, so the oracle may note it; otherwise only o.sealed counts.
pub fn decode_case(e: &End, c: &verif::Connection, bs: &[u8], o: &mut Oracle, must: bool, forged: bool, trusted: bool, b: &mut Batch, keep: bool) {
    decode_any(e, c, bs, o, must, forged, trusted, false, b, keep)
}

/// look: to be judged even if the reference has nothing against it
pub fn decode_as(e: &End, c: &verif::Connection, bs: &[u8], o: &mut Oracle, look: bool, must: bool, b: &mut Batch, keep: bool) {
    decode_any(e, c, bs, o, must, false, false, look, b, keep)
}

pub fn kind_of(s: &str) -> &'static str {
    gen::PROTECTED.iter().find(|x| **x == s).unwrap()
}

fn decode_any(e: &End, c: &verif::Connection, bs: &[u8], o: &mut Oracle, must: bool, forged: bool, trusted: bool, look: bool, b: &mut Batch, keep: bool) {
    let got = sut::decode(c, bs);
    let mut seen = o.clone();
    let rx = e.rx();
    let want = refm::unprotect(bs, &rx, &mut seen);
    o.masks = seen.masks;
    if trusted {
        o.sealed = seen.sealed;
    }
    let suspicious = match (&got, &want) {
        (Out::Ok(g), Some(w)) => !sut::same(g, w) || (forged && w.iter().any(|x| x.kind != "vn")),
        (Out::Err, None) => must,
        (Out::Err, Some(_)) => !b.lax,
        _ => true,
    };
    match &want {
        Some(w) => {
            for x in w {
                b.count(&format!("{} pn {} bytes", x.kind, x.pnbytes.len()));
            }
            b.count(&format!("datagram of {}", w.len()));
        }
        None => b.count("refused datagram"),
    }
    let lax = b.lax;
    emit(b, keep, suspicious || look, || {
        Obj::new("decode").raw("conn", &sut::rx_json(&rx)).b("bs", bs).raw("o", &sut::oracle_json(o)).f("must", must)
            .f("forged", forged).f("may", lax).s("out", got.name()).raw("packets", &sut::gots_json(&got.clone().ok().unwrap_or_default())).done()
    });
}

pub fn c08(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let e = gen::end(r);
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    let kind = gen::PROTECTED[(i % 4) as usize];
    let keys = e.tx_keys(false);
    if i % 8192 == 4001 {
        // a connection that reads thousands of packets
        for _ in 0..4000 {
            let kind = *r.pick(&gen::PROTECTED);
            let (x, _) = gen::packet_for(r, &e, kind, 40);
            let mut o = Oracle::default();
            let bs = refm::protect(&x, keys[Space::of(kind).idx()].as_ref().unwrap(), &mut o);
            decode_case(&e, &c, &bs, &mut o, true, false, false, b, false);
        }
        b.count("connections that read thousands of packets");
    }
    for _ in 0..3 {
        // now and then as large as a datagram can be
        let max = if keep { 120 } else if i / 4 % 32 == 5 { 60000 } else { 1300 };
        let (mut x, _) = gen::packet_for(r, &e, kind, max);
        if i < 2000 {
            // every combination of id lengths and packet number lengths
            x.n = (i / 4 % 4) as usize + 1;
            let (pn, n) = loop { let y = gen::pn_for(r, e.received[Space::of(kind).idx()]); if y.1 == x.n { break y } };
            x.pn = pn;
            x.n = n;
            while x.pt.len() + x.n < 4 { x.pt.insert(0, 0); }
            if kind != "onertt" {
                let n = (i / 16 % 21) as usize;
                x.dcid = r.blob(n);
                let n = (i / 7 % 21) as usize;
                x.scid = r.blob(n);
            }
        }
        let mut o = Oracle::default();
        let bs = refm::protect(&x, keys[Space::of(kind).idx()].as_ref().unwrap(), &mut o);
        decode_case(&e, &c, &bs, &mut o, true, false, false, b, keep);
    }
}

fn no_connection(e: &End) -> String {
    Obj::new("total").s("what", "connection").f("server", e.server).b("dcid", &e.dcid).s("out", "panic").done()
}

/// A datagram of several packets that a conforming peer may send
pub fn coalesced(r: &mut Rng, e: &End, o: &mut Oracle, max_data: usize) -> Vec<Vec<u8>> {
    let keys = e.tx_keys(false);
    let dcid = r.blob(8);
    // a datagram has room for some hundred small packets
    let many = max_data > 100 && r.chance(1, 60);
    let (n, max_data) = if many { (if r.chance(1, 8) { 2200 } else { r.range(6, 300) }, 10) } else if max_data > 100 && r.chance(1, 60) { if r.chance(1, 4) { (r.range(1, 3), 60000) } else { (r.range(1, 5), 12000) } } else { (r.range(1, 5), max_data) };
    let (mut rv, mut size) = (vec![], 0);
    for k in 0..n {
        let last = k + 1 == n;
        let kind = if last { *r.pick(&gen::PROTECTED) } else { *r.pick(&gen::PROTECTED[..3]) };
        let (mut x, _) = gen::packet_for(r, e, kind, if !last && max_data > 20000 { 700 } else { max_data });
        x.dcid = dcid.clone();
        if n > 300 {
            // as many as there is room for
            x.scid = vec![];
            x.token = vec![];
            x.pt = vec![1; 3];
            if size + 100 > 65507 && !last {
                continue;
            }
        }
        rv.push(refm::protect(&x, keys[Space::of(kind).idx()].as_ref().unwrap(), o));
        size += rv[rv.len() - 1].len();
    }
    rv
}

pub fn c12(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let e = gen::end(r);
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    let mut o = Oracle::default();
    let parts = coalesced(r, &e, &mut o, if keep { 60 } else { 700 });
    let bs = parts.concat();
    if i % 3 == 0 {
        decode_case(&e, &c, &bs, &mut o, true, false, false, b, keep);
        return;
    }
    // damaged: cut, a member altered, garbage or zeros behind, members dropped or repeated
    let mut parts = parts;
    match r.below(7) {
        0 => {
            let k = r.below(bs.len() as u64 + 1) as usize;
            let cut = bs[..k].to_vec();
            parts = vec![cut];
        }
        1 => {
            let k = r.below(parts.len() as u64) as usize;
            gen::damage(r, &mut parts[k]);
        }
        2 => {
            let n = r.len(60);
            parts.push(r.blob(n));
        }
        3 => {
            let n = r.range(1, 30) as usize;
            parts.push(vec![0; n]);
        }
        4 => {
            let k = r.below(parts.len() as u64) as usize;
            let x = parts[k].clone();
            parts.insert(k, x);
        }
        5 => {
            let k = r.below(parts.len() as u64) as usize;
            let n = parts[k].len() as u64;
            parts[k].truncate(r.below(n) as usize);
        }
        _ => {
            // a version negotiation packet takes the rest
            let h = refm::Header { long: true, b: 0x80 | r.byte(), version: 0, kind: "vn", dcid: r.blob(8), scid: gen::id(r, 20) };
            let mut v = refm::put_header(&h);
            let n = r.below(5) as usize * 4 + if r.chance(1, 4) { 1 } else { 0 };
            v.extend(r.blob(n));
            let k = r.below(parts.len() as u64 + 1) as usize;
            parts.insert(k, v);
        }
    }
    let bs = parts.concat();
    decode_case(&e, &c, &bs, &mut o, false, false, false, b, keep);
}

/// A version negotiation packet; versions: their bytes
fn negotiation(b: u8, dcid: Vec<u8>, scid: Vec<u8>, versions: &[u8]) -> Vec<u8> {
    let mut v = refm::put_header(&refm::Header { long: true, b: 0x80 | b, version: 0, kind: "vn", dcid, scid });
    v.extend(versions);
    v
}

/// An end, in most cases without keys
fn some_end(r: &mut Rng) -> End {
    let mut e = gen::end(r);
    if r.chance(2, 3) {
        e.secrets = Default::default();
    }
    e
}

pub fn c25(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let e = some_end(r);
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    let mut o = Oracle::default();
    let id = |r: &mut Rng, k: u64| {
        let n = match r.below(4) { 0 => (k % 256) as usize, 1 => r.range(19, 23) as usize, _ => r.below(21) as usize };
        r.blob(n)
    };
    let (dcid, scid) = (id(r, i), id(r, i / 5));
    let n = if keep || r.chance(9, 10) { r.below(8) } else if r.chance(1, 20) { r.below(16000) } else { r.below(400) } as usize;
    let mut vs = r.blob(4 * n);
    if n > 1 && r.flag() {
        // the same twice, zero, or version 1
        let w = match r.below(3) { 0 => vs[..4].to_vec(), 1 => vec![0; 4], _ => vec![0, 0, 0, 1] };
        let k = 4 * r.range(1, n as u64 - 1) as usize;
        vs[k..k + 4].copy_from_slice(&w);
    }
    let first = r.byte();
    let mut bs = negotiation(first, dcid, scid, &vs);
    let (mut must, mut what) = (n > 0, "version negotiation packets");
    match r.below(10) {
        0 => {
            bs.truncate(r.below(bs.len() as u64) as usize);
            must = false;
            what = "cut";
        }
        1 => {
            let k = r.range(1, 3) as usize;
            bs.extend(r.blob(k));
            must = false;
            what = "with part of a version";
        }
        2 => {
            // another version: not version negotiation
            bs[1 + r.below(4) as usize] = 1 << r.below(8);
            must = false;
            what = "of another version";
        }
        3 => {
            // after another packet
            let kind = if e.secrets.iter().all(|x| x.is_none()) { "initial" } else { *r.pick(&gen::PROTECTED[..3]) };
            let keys = e.tx_keys(false);
            if let Some(k) = keys[Space::of(kind).idx()].as_ref() {
                let (x, _) = gen::packet_for(r, &e, kind, if keep { 30 } else { 200 });
                bs = [refm::protect(&x, k, &mut o), negotiation(first, x.dcid.clone(), vec![7; 3], &vs)].concat();
            }
            must = false;
            what = "after another packet";
        }
        _ => {}
    }
    b.count(what);
    decode_case(&e, &c, &bs, &mut o, must, false, false, b, keep);
}

/// A packet of the model, on a connection in some state
pub fn replay_negotiation(i: u64, bs: &[u8], must: bool, versions: Option<Vec<u32>>, b: &mut Batch, keep: bool) {
    let mut r = Rng::new(i, 25);
    let e = some_end(&mut r);
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    let fine = match (sut::decode(&c, bs), &versions) {
        (Out::Ok(v), Some(w)) => v.len() == 1 && v[0].versions == *w,
        (Out::Err, None) => true,
        (Out::Err, Some(w)) => w.is_empty(),
        _ => false,
    };
    b.count("packets of the model read");
    decode_as(&e, &c, bs, &mut Oracle::default(), !fine, must, b, keep);
}

pub fn c09(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let mut e = gen::end(r);
    let kind = gen::PROTECTED[(i % 4) as usize];
    let space = Space::of(kind);
    let max = if keep { 40 } else { 300 };
    let (x, _) = gen::packet_for(r, &e, kind, max);
    let keys = e.tx_keys(false);
    let mut o = Oracle::default();
    let bs = refm::protect(&x, keys[space.idx()].as_ref().unwrap(), &mut o);
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    let n = bs.len();
    // refusing too much is no fault here
    b.lax = true;
    // the genuine packet is accepted, so that a refusal means something
    b.count(if sut::decode(&c, &bs).name() == "ok" { "genuine packets accepted" } else { "genuine packets refused" });
    decode_case(&e, &c, &bs, &mut o.clone(), false, false, false, b, keep && i % 16 == 0);
    if i % 2 == 0 {
        own_forgeries(i, r, b, keep);
    }
    let forge = |bs2: Vec<u8>, what: &str, b: &mut Batch| {
        if bs2 == bs { return; }
        b.count(&format!("forged: {}", what));
        let mut o2 = o.clone();
        // the genuine packet may be there still, with something after it
        let forged = !bs2.windows(bs.len()).any(|w| w == &bs[..]);
        decode_case(&e, &c, &bs2, &mut o2, false, forged || kind == "onertt", false, b, keep);
    };
    // every bit in turn over the cases, and every region of the packet
    for _ in 0..2 {
        let k = r.below(8 * n as u64) as usize;
        let mut v = bs.clone();
        v[k / 8] ^= 1 << (k % 8);
        forge(v, "one bit", b);
    }
    {
        let k = (i / 4) as usize % (8 * n.min(60));
        let mut v = bs.clone();
        v[k / 8] ^= 1 << (k % 8);
        forge(v, "one bit near the start", b);
        let k = (i / 4) as usize % (8 * 20);
        let mut v = bs.clone();
        v[n - 1 - k / 8 % n] ^= 1 << (k % 8);
        forge(v, "one bit of the tag", b);
    }
    let mut v = bs.clone();
    gen::damage(r, &mut v);
    forge(v, "damage", b);
    let mut v = bs.clone();
    v.truncate(r.below(n as u64) as usize);
    if !v.is_empty() {
        forge(v, "cut", b);
    }
    let mut v = bs.clone();
    let extra = r.range(1, 20) as usize;
    v.extend(r.blob(extra));
    if kind == "onertt" { forge(v, "extended", b) }
    // other keys: reflected to its sender, another connection, another space, sealed by hand
    // with wrong number, direction or associated data
    let mut other = e.clone();
    let what = match r.below(5) {
        0 => { other = e.other(); other.scid = Some(vec![1]); other.received = e.received; "reflected" }
        1 => { other.dcid = gen::id(r, 20); other.secrets = [gen::secret_pair(r), gen::secret_pair(r)]; "other connection" }
        2 => { other.secrets.swap(0, 1); "keys of the spaces exchanged" }
        3 => { other.secrets = [None, None]; "keys not installed" }
        _ => { other.received[space.idx()] = Some(match e.received[space.idx()] { Some(l) => l.wrapping_add(1 << 40) & refm::MAX_VARINT - 1, None => (1 << 40) + r.int(40) }); "other history" }
    };
    let differs = match what {
        "other connection" => kind != "initial" || other.dcid != e.dcid,
        "keys of the spaces exchanged" | "keys not installed" => kind != "initial",
        _ => true,
    };
    if differs {
        if let Some(c2) = other.connection() {
            b.count(&format!("forged: {}", what));
            decode_case(&other, &c2, &bs, &mut o.clone(), false, true, false, b, keep);
        }
    }
    // an attacker who lacks the keys protects a packet himself
    let bad = Keys { key: r.bytes(16), iv: r.bytes(12), hp: keys[space.idx()].as_ref().unwrap().hp.clone() };
    let mut o3 = Oracle::default();
    let v = refm::protect(&x, &bad, &mut o3);
    forge(v, "sealed with unknown keys", b);
    // the peer's keys, but a packet made for another packet number space's type bits
    if kind == "handshake" || kind == "zerortt" {
        let mut v = bs.clone();
        v[0] ^= *r.pick(&[0x10, 0x20, 0x30]);
        forge(v, "another type", b);
    }
    e.scid = None;
}

/// The same with packets that the library itself protected: whatever its format is, what
/// differs from a packet that was sent is refused
fn own_forgeries(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let mut e = gen::end(r);
    e.received = [None; 3];
    let peer = e.other();
    let kind = if i % 4 == 0 { "initial" } else { "handshake" };
    let o = FrameOpts { max_data: if keep { 40 } else { 200 }, bits: 62, sane: true };
    let fs: Vec<Rec> = vec![refm::crypto(r.below(9), r.blob(12)), gen::frame_for(r, kind, &o)];
    let token: Option<Vec<u8>> = if kind == "initial" && r.flag() { let n = r.len(60); Some(r.blob(n)) } else { None };
    let mut c = match e.connection() { Some(c) => c, None => return };
    let rx = match peer.connection() { Some(c) => c, None => return };
    let frames = || fs.iter().map(|f| verif::frame::build(&refm::buildable(f))).collect::<Vec<_>>();
    let sent = call(|| {
        if kind == "initial" {
            let p = PacketInitial::new(frames(), token.clone(), &mut c)?;
            verif::packet::serialize_initial(&p, &c)
        } else {
            let p = PacketHandshake::new(frames(), &mut c)?;
            verif::packet::serialize_handshake(&p, &c)
        }
    });
    let bs = match sent { Out::Ok(x) => x, _ => return };
    if sut::decode(&rx, &bs).name() != "ok" {
        // not decided here
        b.count("own packets refused");
        return;
    }
    b.count("own packets accepted");
    let n = bs.len();
    let head = 7 + e.dcid.len() + e.scid.as_ref().map_or(0, |x| x.len()) + token.as_ref().map_or(0, |x| x.len()) + 8;
    let forge = |v: Vec<u8>, rx: &verif::Connection, same: bool, b: &mut Batch| {
        if v.len() > n || (v == bs) != same {
            return;
        }
        b.count("forged: own packets");
        let got = sut::decode(rx, &v);
        let accepted = match &got { Out::Ok(ps) => ps.iter().any(|p| p.kind != "vn"), Out::Panic => true, _ => false };
        emit(b, keep, accepted, || {
            Obj::new("forge").b("sent", &bs).b("bs", &v).f("same", same).s("out", got.name())
                .raw("packets", &sut::gots_json(&got.clone().ok().unwrap_or_default())).done()
        });
    };
    for k in 0..4 {
        let bit = if k < 2 { (i as usize / 4 * 2 + k) % (8 * head.min(n)) } else { r.below(8 * n as u64) as usize };
        let mut v = bs.clone();
        v[bit / 8] ^= 1 << (bit % 8);
        forge(v, &rx, false, b);
    }
    let mut v = bs.clone();
    gen::damage(r, &mut v);
    forge(v, &rx, false, b);
    let mut v = bs.clone();
    v.truncate(r.range(1, n as u64 - 1) as usize);
    forge(v, &rx, false, b);
    // back to the sender, or to somebody else
    forge(bs.clone(), &c, true, b);
    let mut other = peer.clone();
    other.dcid = loop { let x = gen::id(r, 20); if x != peer.dcid { break x } };
    other.secrets = [gen::secret_pair(r), gen::secret_pair(r)];
    if let Some(x) = other.connection() {
        forge(bs.clone(), &x, true, b);
    }
}

pub fn c07(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    if i % 8192 == 4001 {
        return many_sent(r, b, keep);
    }
    let mut e = gen::end(r);
    let kind = if i % 2 == 0 { "initial" } else { "handshake" };
    let space = Space::of(kind);
    // a position in the history of the space: what the peer has and acknowledged
    let acked = if r.chance(1, 4) { None } else { Some(r.int(61)) };
    let last = match acked {
        None => { let bits = if r.chance(1, 8) { 40 } else { 32 }; r.int(bits) }
        Some(a) => a + match r.below(4) { 0 => r.int(33), 1 => 0, _ => r.int(24) },
    };
    e.acked[space.idx()] = acked;
    e.last_sent[space.idx()] = Some(last);
    let mut keys_there = true;
    if kind == "handshake" && r.chance(1, 12) {
        e.secrets[0] = None;
        keys_there = false;
    }
    let pn = last + 1;
    let sane = !r.chance(1, 10);
    let max = if keep { 100 } else if i / 4 % 32 == 5 { 60000 } else { 1300 };
    let o = FrameOpts { max_data: max, bits: if sane { 62 } else { 64 }, sane };
    let fs: Vec<Rec> = match r.below(10) {
        0 => vec![Rec::new(if r.flag() { "ping" } else { "padding" }, vec![])],
        1 => (0..r.below(5)).map(|_| gen::frame(r, &o)).collect(),
        2 => (0..r.len(if keep { 60 } else { 1200 })).map(|_| Rec::new("padding", vec![])).collect(),
        _ => (0..r.range(1, 4)).map(|_| gen::frame_for(r, kind, &o)).collect(),
    };
    let token: Option<Vec<u8>> = if kind == "initial" && r.flag() { let n = gen::token_len(r, max, if keep { 80 } else { 1200 }); Some(r.blob(n)) } else { None };
    let mut c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    let frames = || fs.iter().map(|f| verif::frame::build(&refm::buildable(f))).collect::<Vec<_>>();
    // sometimes not sent at once, or not for the first time
    let (between, again) = if r.chance(1, 3) { (r.below(4), r.flag()) } else { (0, false) };
    let marks = [r.next(), r.next(), r.next()];
    let meanwhile = |c: &mut verif::Connection| {
        for k in 0..between as usize {
            let _ = match marks[k] % 6 {
                0 => PacketInitial::new(vec![verif::frame::build(&Rec::new("ping", vec![]))], Some(vec![7; 9]), c).map(|p| drop(verif::packet::serialize_initial(&p, c))),
                1 => PacketHandshake::new(vec![verif::frame::build(&Rec::new("ping", vec![]))], c).map(|p| drop(verif::packet::serialize_handshake(&p, c))),
                2 => PacketInitial::new(vec![], None, c).map(|_| ()),
                3 => PacketHandshake::new(vec![], c).map(|_| ()),
                4 => Ok(c.verif_set_largest_acked(sut::pns(space), Some(pn - marks[k] / 8 % pn.min(4)))),
                _ => Ok(c.verif_set_largest_received(sut::pns(space), Some(marks[k] >> 3 & 0xffff_ffff))),
            };
        }
    };
    if between > 0 || again {
        b.count("sent later, or again");
    }
    let got: Out<(u64, Vec<u8>)> = call(|| {
        if kind == "initial" {
            let p = PacketInitial::new(frames(), token.clone(), &mut c)?;
            if again { let _ = verif::packet::serialize_initial(&p, &c); }
            meanwhile(&mut c);
            let v = verif::packet::initial_view(&p);
            Ok::<_, verif::Error>((v.packet_number, verif::packet::serialize_initial(&p, &c)?))
        } else {
            let p = PacketHandshake::new(frames(), &mut c)?;
            if again { let _ = verif::packet::serialize_handshake(&p, &c); }
            meanwhile(&mut c);
            let v = verif::packet::handshake_view(&p);
            Ok((v.packet_number, verif::packet::serialize_handshake(&p, &c)?))
        }
    });
    // the peer may be anywhere between the acknowledged packet and the one before this
    let at = match acked {
        None if pn < 1 << 32 => if r.flag() || last == 0 { None } else { Some(r.range(last / 2, last)) },
        None => None,
        Some(a) => Some(r.range(a, last)),
    };
    sent(kind, &e, pn, at, &fs, token, &got, b, keep);
}

/// A connection that has sent thousands of packets
fn many_sent(r: &mut Rng, b: &mut Batch, keep: bool) {
    let mut e = gen::end(r);
    e.secrets[0] = Some((r.blob(32), r.blob(32)));
    for s in refm::SPACES {
        e.acked[s.idx()] = None;
        e.last_sent[s.idx()] = Some(0);
    }
    let mut c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(&e)); return } };
    for _ in 0..6000 {
        let kind = if r.flag() { "initial" } else { "handshake" };
        let s = Space::of(kind);
        let n = r.below(30) as usize;
        let fs = vec![refm::crypto(r.below(1 << 20), r.bytes(n)), Rec::new("ping", vec![])];
        let got: Out<(u64, Vec<u8>)> = call(|| {
            let frames = fs.iter().map(|f| verif::frame::build(&refm::buildable(f))).collect::<Vec<_>>();
            if kind == "initial" {
                let p = PacketInitial::new(frames, None, &mut c)?;
                Ok::<_, verif::Error>((verif::packet::initial_view(&p).packet_number, verif::packet::serialize_initial(&p, &c)?))
            } else {
                let p = PacketHandshake::new(frames, &mut c)?;
                Ok((verif::packet::handshake_view(&p).packet_number, verif::packet::serialize_handshake(&p, &c)?))
            }
        });
        let pn = e.last_sent[s.idx()].unwrap() + 1;
        sent(kind, &e, pn, Some(pn - 1), &fs, None, &got, b, keep && pn == 1);
        e.last_sent[s.idx()] = Some(pn);
        if r.chance(1, 40) {
            let a = pn - r.below(pn.min(100));
            e.acked[s.idx()] = Some(a);
            c.verif_set_largest_acked(sut::pns(s), Some(a));
        }
    }
    b.count("connections that sent thousands of packets");
}

/// What the library made of a packet it was to send, read by a peer that is at packet number at
pub fn sent(kind: &'static str, e: &End, pn: u64, at: Option<u64>, fs: &[Rec], token: Option<Vec<u8>>, got: &Out<(u64, Vec<u8>)>, b: &mut Batch, keep: bool) {
    let space = Space::of(kind);
    let acked = e.acked[space.idx()];
    let keys_there = kind == "initial" || e.secrets[0].is_some();
    let mut peer = e.other();
    peer.scid = Some(vec![]);
    peer.received[space.idx()] = at;
    let safe = refm::safe_len(pn, acked) <= 4;
    let at_limit = acked.map_or(false, |a| pn - a == 1 << 31);
    let mut orc = Oracle::default();
    let rx = peer.rx();
    let own = match (got, peer.connection()) {
        (Out::Ok((_, bs)), Some(pc)) => sut::decode(&pc, bs),
        _ => Out::Err,
    };
    let want = match got { Out::Ok((_, bs)) => refm::unprotect(bs, &rx, &mut orc), _ => None };
    let encodable = fs.iter().all(refm::encodable);
    let token = token.unwrap_or_default();
    let suspicious = match got {
        Out::Ok((x, bs)) => {
            let fine = match &want {
                Some(w) => w.len() == 1 && w[0].kind == kind && w[0].pn == pn && w[0].frames[..] == *fs && w[0].token == token
                    && w[0].dlen == e.dcid.len() && w[0].dcid[20 - w[0].dlen..] == e.dcid[..]
                    && w[0].slen == e.scid.as_ref().unwrap().len() && w[0].scid[20 - w[0].slen..] == e.scid.as_ref().unwrap()[..]
                    && w[0].header[0] & 0xfc == if kind == "initial" { 0xc0 } else { 0xe0 }
                    && w[0].header[1..5] == [0, 0, 0, 1],
                None => false,
            };
            let _ = bs;
            !(fine && *x == pn && keys_there && safe && encodable && own.as_ref().map(|g| sut::same(g, want.as_ref().unwrap())) == Out::Ok(true))
        }
        Out::Err => keys_there && safe && encodable && !at_limit && refm::put_frames(fs, false, &mut |_| 1).len() >= 3 && !fs.is_empty(),
        Out::Panic => true,
    };
    b.count(&match &want {
        Some(w) if w.len() == 1 => format!("sent {} pn {} bytes", kind, w[0].pnbytes.len()),
        _ => format!("{} not sent", kind),
    });
    emit(b, keep, suspicious, || {
        let (_, bs) = got.clone().ok().unwrap_or((0, vec![]));
        let o = format!("{{\"out\":\"{}\",\"packets\":{}}}", own.name(), sut::gots_json(&own.clone().ok().unwrap_or_default()));
        Obj::new("send").s("kind", kind).s("out", got.name()).f("possible", keys_there && safe && !(at_limit && !got.is_ok()))
            .raw("frames", &out::recs(fs)).b("token", &token).b("dcid", &e.dcid).b("scid", e.scid.as_ref().unwrap())
            .u("pn", pn).b("bs", &bs).raw("peer", &sut::rx_json(&rx)).raw("o", &sut::oracle_json(&orc)).raw("own", &o).done()
    });
}

// ----------------------------------------------------------- C10, C11

fn material(x: (Vec<u8>, Option<Vec<u8>>, Vec<u8>)) -> Keys {
    Keys { key: x.0, iv: x.1.unwrap_or_default(), hp: x.2 }
}

pub fn c10(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    if i % 4 == 3 {
        let n = if r.chance(1, 4) { *r.pick(&[33, 48, 63, 64, 65, 80]) } else { 32 };
        let secret = r.blob(n);
        secret_keys(&secret, b, keep);
    } else {
        let dcid = r.blob((i % 21) as usize);
        initial_keys((i / 21) % 2 == 0, &dcid, b, keep);
    }
}

pub fn secret_keys(secret: &[u8], b: &mut Batch, keep: bool) {
    let mut kdf = refm::Kdf::default();
    let want = kdf.keys(secret);
    let got = call(|| verif::secrets::from_secret(secret)).map(|s| material(verif::secrets::material(&s)));
    b.count("keys of a secret");
    emit(b, keep, got != Out::Ok(want), || {
        let k = got.clone().ok().unwrap_or(Keys { key: vec![], iv: vec![], hp: vec![] });
        Obj::new("secret").b("secret", secret).raw("o", &sut::kdf_json(&kdf)).s("out", got.name()).raw("keys", &sut::keys_json(&k)).done()
    });
}

pub fn initial_keys(server: bool, dcid: &[u8], b: &mut Batch, keep: bool) {
    let e = End::new(server, dcid);
    let mut kdf = refm::Kdf::default();
    let (mine, theirs) = (kdf.initial(server, dcid), kdf.initial(!server, dcid));
    let got = match e.connection() {
        None => Out::Panic,
        Some(c) => call(|| -> Result<(Keys, Keys), ()> {
            Ok((
                material(verif::secrets::material(c.verif_local_secrets(verif::PacketNumberSpace::Initial).ok_or(())?)),
                material(verif::secrets::material(c.verif_remote_secrets(verif::PacketNumberSpace::Initial).ok_or(())?)),
            ))
        }),
    };
    b.count(&format!("initial keys id {} bytes {}", dcid.len(), if server { "server" } else { "client" }));
    emit(b, keep, got != Out::Ok((mine, theirs)), || {
        let none = Keys { key: vec![], iv: vec![], hp: vec![] };
        let (l, m) = got.clone().ok().unwrap_or((none.clone(), none));
        Obj::new("keys").s("side", if server { "server" } else { "client" }).b("dcid", dcid).raw("o", &sut::kdf_json(&kdf))
            .s("out", got.name()).raw("local", &sut::keys_json(&l)).raw("remote", &sut::keys_json(&m)).done()
    });
}

pub fn c11(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    if i % 8192 == 4001 {
        return many_sealed(r, b);
    }
    let e = gen::end(r);
    let space = refm::SPACES[(i % 3) as usize];
    let (c, d) = match (e.connection(), e.other().connection()) { (Some(c), Some(d)) => (c, d), _ => { b.lines.push(no_connection(&e)); return } };
    let k = e.tx_keys(true)[space.idx()].clone().unwrap();
    let n = r.len(if keep { 100 } else { 20000 });
    let pt = r.blob(n);
    let n = r.len(if keep { 60 } else if i % 16 == 9 { 66000 } else { 2000 });
    let aad = r.blob(n);
    let pn = r.int(62);
    let mut o = Oracle::default();
    let want = seal_as(&c, &k, space, pn, &aad, &pt, &mut o, b, keep);
    // opening: as sealed, and with one thing different
    let (mut ct2, mut aad2, mut pn2) = (want.clone(), aad.clone(), pn);
    let (mut to, mut kk) = (&d, k.clone());
    let what = ["as sealed", "packet number", "associated data", "ciphertext", "cut", "direction", "space"][(i / 3 % 7) as usize];
    let mut space2 = space;
    match what {
        "packet number" => pn2 ^= 1 << r.below(62),
        "associated data" => if aad2.is_empty() { aad2.push(0) } else if r.flag() { aad2.pop(); } else { let j = r.below(aad2.len() as u64) as usize; aad2[j] ^= 1 << r.below(8) },
        "ciphertext" => { let j = r.below(ct2.len() as u64) as usize; ct2[j] ^= 1 << r.below(8) }
        "cut" => { let j = r.below(ct2.len() as u64) as usize; ct2.truncate(if r.flag() { j } else { j.min(18) }) }
        "direction" => { to = &c; kk = e.tx_keys(false)[space.idx()].clone().unwrap() }
        "space" => { space2 = refm::SPACES[((i + 1) % 3) as usize]; kk = e.tx_keys(true)[space2.idx()].clone().unwrap() }
        _ => {}
    }
    open_as(what, to, &kk, space2, pn2, &aad2, &ct2, if what == "as sealed" { Some(&pt) } else { None }, &o, b, keep);
    // masks
    let n = if r.chance(1, 8) { r.below(16) as usize } else { 16 + r.below(3) as usize };
    let sample = r.blob(n);
    let mut o = Oracle::default();
    let want = if n >= 16 { Out::Ok(o.mask(&k.hp, &sample[..16])) } else { Out::Err };
    let got = call(|| c.get_local_hp_mask(pns(space), &mut verif::make_result_stream(&sample)));
    let got2 = call(|| d.get_remote_hp_mask(pns(space), &mut verif::make_result_stream(&sample)));
    for (side, g) in [("local", got), ("remote", got2)] {
        emit(b, keep, g != want, || {
            Obj::new("mask").s("side", side).raw("keys", &sut::keys_json(&k)).raw("o", &sut::oracle_json(&o)).b("sample", &sample)
                .s("out", g.name()).b("mask", &g.clone().ok().unwrap_or([0; 5])).done()
        });
    }
}

/// Keys that have protected thousands of payloads, in order and out of order
fn many_sealed(r: &mut Rng, b: &mut Batch) {
    let mut e = gen::end(r);
    e.secrets = [Some((r.blob(32), r.blob(32))), Some((r.blob(32), r.blob(32)))];
    let (c, d) = match (e.connection(), e.other().connection()) { (Some(c), Some(d)) => (c, d), _ => { b.lines.push(no_connection(&e)); return } };
    let keys = e.tx_keys(true);
    let pt = r.blob(20);
    let aad = r.blob(9);
    let mut last: Vec<(Space, u64, Vec<u8>)> = vec![];
    for pn in 0..4000u64 {
        let space = *r.pick(&refm::SPACES);
        let k = keys[space.idx()].as_ref().unwrap();
        let mut o = Oracle::default();
        let ct = seal_as(&c, k, space, pn, &aad, &pt, &mut o, b, false);
        open_as("as sealed", &d, k, space, pn, &aad, &ct, Some(&pt), &o, b, false);
        last.push((space, pn, ct));
        let (s2, pn2, ct2) = r.pick(&last).clone();
        let k2 = keys[s2.idx()].as_ref().unwrap();
        let mut o = Oracle::default();
        o.seal(&k2.key, &refm::nonce(&k2.iv, pn2), &aad, &pt);
        open_as("as sealed", &d, k2, s2, pn2, &aad, &ct2, Some(&pt), &o, b, false);
        if pn2 != pn {
            open_as("packet number", &d, k2, s2, pn, &aad, &ct2, None, &o, b, false);
        }
    }
    b.count("keys that protected thousands of payloads");
}

/// Seals with the library; what it should be
pub fn seal_as(c: &verif::Connection, k: &Keys, space: Space, pn: u64, aad: &[u8], pt: &[u8], o: &mut Oracle, b: &mut Batch, keep: bool) -> Vec<u8> {
    let want = o.seal(&k.key, &refm::nonce(&k.iv, pn), aad, pt);
    let got = call(|| c.encrypt_local_payload(pns(space), pt, aad, pn));
    let announced = call(|| c.get_local_protected_payload_len(pns(space), pt.len())).ok().unwrap_or(1 << 20);
    b.count(&format!("sealed {}", space.name()));
    emit(b, keep, got != Out::Ok(want.clone()) || announced != want.len(), || {
        Obj::new("seal").raw("keys", &sut::keys_json(k)).raw("o", &sut::oracle_json(o)).b("pt", pt).b("aad", aad).u("pn", pn)
            .s("out", got.name()).b("ct", &got.clone().ok().unwrap_or_default()).n("announced", announced).done()
    });
    want
}

/// Opens with the library; want is what it should be
pub fn open_as(what: &str, to: &verif::Connection, k: &Keys, space: Space, pn: u64, aad: &[u8], ct: &[u8], want: Option<&Vec<u8>>, o: &Oracle, b: &mut Batch, keep: bool) {
    let got = call(|| to.decrypt_remote_payload(pns(space), ct, aad, pn));
    b.count(&format!("opened: {}", what));
    let fine = match want { Some(pt) => got == Out::Ok(pt.clone()), None => got == Out::Err };
    emit(b, keep, !fine, || {
        Obj::new("open").s("what", what).raw("keys", &sut::keys_json(k)).raw("o", &sut::oracle_json(o)).b("ct", ct).b("aad", aad).u("pn", pn)
            .s("out", got.name()).b("pt", &got.clone().ok().unwrap_or_default()).done()
    });
}

// ---------------------------------------------------------- C13, C14

/// Any input to the decoder: (what, connection end, bytes)
fn hostile(i: u64, r: &mut Rng, big: bool) -> (&'static str, End, Vec<u8>) {
    let mut e = gen::end(r);
    if r.chance(1, 8) {
        e.secrets = [None, None];
    }
    for k in 0..3 {
        if r.chance(1, 6) {
            e.received[k] = Some(refm::MAX_VARINT - r.below(3));
        }
    }
    let keys = e.tx_keys(false);
    let max = if big { 1300 } else { 200 };
    match i % 8 {
        0 => ("header", e, header_bytes(i, r)),
        1 => ("frames", e, gen::payload(r, max)),
        2 => {
            let n = r.len(if big { 60000 } else { 1500 });
            let mut v = r.blob(n);
            if n > 0 && r.flag() { v[0] |= 0xc0; }
            if n > 5 && r.flag() { v[1..5].copy_from_slice(&[0, 0, 0, 1]); }
            ("datagram", e, v)
        }
        3 => {
            // headers and then lengths that promise too much or too little
            let h = refm::Header { long: true, b: 0xc0 | r.byte(), version: if r.chance(1, 8) { 0 } else { 1 }, kind: "", dcid: gen::id(r, 20), scid: gen::id(r, 20) };
            let mut v = refm::put_header(&h);
            for _ in 0..r.below(4) {
                let x = if r.flag() { r.below(40) } else { r.int(62) };
                let n = gen::forms(r).max(refm::vi_len(x));
                v.extend(refm::vi_as(x, n));
                if r.chance(1, 3) { let n = r.len(30); v.extend(r.blob(n)); }
            }
            let n = r.len(60);
            v.extend(r.blob(n));
            ("datagram", e, v)
        }
        4 | 5 => {
            // authentic packets of arbitrary content
            let kind = *r.pick(&gen::PROTECTED);
            let (mut x, _) = gen::packet_for(r, &e, kind, max);
            x.pt = gen::payload(r, max);
            if r.chance(1, 6) { let n = r.len(24); x.pt.truncate(n); }
            x.bits = r.byte();
            let mut o = Oracle::default();
            let bs = match &keys[Space::of(kind).idx()] { Some(k) => refm::protect(&x, k, &mut o), None => r.bytes(40) };
            ("datagram", e, bs)
        }
        6 => {
            let mut o = Oracle::default();
            let full = End { secrets: [gen::secret_pair(r), gen::secret_pair(r)], ..e.clone() };
            let mut v = coalesced(r, &full, &mut o, max).concat();
            gen::damage(r, &mut v);
            ("datagram", full, v)
        }
        _ => {
            let mut v = if r.flag() { let x = r.int(62); refm::vi(x) } else { vec![] };
            let n = r.below(10) as usize;
            v.extend(r.blob(n));
            let k = r.below(v.len() as u64 + 1) as usize;
            v.truncate(k);
            ("integer", e, v)
        }
    }
}

fn run_hostile(what: &str, c: &verif::Connection, bs: &[u8]) -> &'static str {
    match what {
        "header" => sut::header(bs).name(),
        "frames" => sut::parse(bs).name(),
        "integer" => {
            let outs = [
                call(|| verif::decode_var_int(bs)).name(),
                call(|| verif::var_int_from_stream(&mut verif::make_result_stream(bs))).name(),
                call(|| verif::var_int_with_bytes_from_stream(&mut verif::make_result_stream(bs))).name(),
            ];
            if outs.contains(&"panic") { "panic" } else { outs[0] }
        }
        _ => sut::decode(c, bs).name(),
    }
}

/// As many frames, packets or ranges as a datagram has room for
fn crowded(r: &mut Rng) -> (&'static str, End, Vec<u8>) {
    let e = gen::end(r);
    let n = 65507 - r.below(400) as usize;
    let one = small_frame(r);
    let mut pt: Vec<u8> = one.iter().cycle().take(n).cloned().collect();
    if r.chance(1, 4) {
        // one frame of many parts
        let k = r.range(10_000, 40_000);
        pt = [vec![2], refm::vi(1 << 40), vec![0], refm::vi(k), vec![0], vec![0; n]].concat();
        pt.truncate(n);
    }
    match r.below(3) {
        0 => ("frames", e, pt),
        1 => {
            let keys = e.tx_keys(false);
            let kind = *r.pick(&gen::PROTECTED);
            pt.truncate(n - 200);
            let (mut x, _) = gen::packet_for(r, &e, kind, 10);
            x.pt = pt;
            x.token = vec![];
            let bs = match &keys[Space::of(kind).idx()] { Some(k) => refm::protect(&x, k, &mut Oracle::default()), None => r.bytes(40) };
            ("datagram", e, bs)
        }
        _ => {
            let k = e.tx_keys(false)[0].clone().unwrap();
            let mut bs = vec![];
            while bs.len() < n {
                let (mut x, _) = gen::packet_for(r, &e, "initial", 10);
                x.dcid = vec![];
                x.scid = vec![];
                x.token = vec![];
                x.pt = vec![1; 3];
                bs.extend(refm::protect(&x, &k, &mut Oracle::default()));
            }
            ("datagram", e, bs)
        }
    }
}

pub fn c13(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let (what, e, bs) = if i % 4096 == 4095 && !keep { crowded(r) } else { hostile(i, r, !keep) };
    total_as(what, &e, &bs, b, keep);
}

/// Reads the bytes, which may do anything but end in a panic
pub fn total_as(what: &str, e: &End, bs: &[u8], b: &mut Batch, keep: bool) {
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(e)); return } };
    let got = run_hostile(what, &c, bs);
    b.count(&format!("{}: {}", what, got));
    emit(b, keep, got == "panic", || {
        Obj::new("total").s("what", what).raw("conn", &sut::rx_json(&e.rx())).b("bs", bs).s("out", got).done()
    });
}

pub const MEMORY_BASE: usize = 65536;
pub const MEMORY_PER_BYTE: usize = 2048;

pub fn c14(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let (what, e, bs) = if i % 16 == 15 {
        // the most frames per byte
        let e = gen::end(r);
        let n = r.len(if keep { 300 } else { 1400 });
        match r.below(3) {
            0 => ("frames", e, vec![*r.pick(&[0, 1, 30]); n]),
            1 => {
                let k = e.tx_keys(false)[0].clone().unwrap();
                let (mut x, _) = gen::packet_for(r, &e, "initial", 10);
                x.pt = vec![*r.pick(&[0, 1, 30]); n.max(4)];
                let bs = refm::protect(&x, &k, &mut Oracle::default());
                ("datagram", e, bs)
            }
            _ => {
                // an ACK frame that promises many ranges
                let mut v = vec![2];
                for x in [r.int(62), r.int(62), r.int(40), r.int(62)] { v.extend(refm::vi(x)); }
                v.extend(r.blob(n.min(40)));
                ("frames", e, v)
            }
        }
    } else {
        hostile(i, r, !keep)
    };
    memory_as(what, &e, &bs, b, keep);
}

/// Reads the bytes, and measures what that needs at most
pub fn memory_as(what: &str, e: &End, bs: &[u8], b: &mut Batch, keep: bool) {
    let c = match e.connection() { Some(c) => c, None => { b.lines.push(no_connection(e)); return } };
    let (got, peak) = alloc::peak(|| run_hostile_raw(what, &c, bs));
    b.count(&format!("{}: {}", what, got));
    let per = (peak / (bs.len() + 64)) as u64;
    let m = b.counts.entry("max bytes of memory per received byte + 64".into()).or_insert(0);
    *m = (*m).max(per);
    emit(b, keep, got == "panic" || peak > MEMORY_BASE + MEMORY_PER_BYTE * bs.len(), || {
        Obj::new("memory").s("what", what).raw("conn", &sut::rx_json(&e.rx())).b("bs", bs).n("n", bs.len()).s("out", got).n("peak", peak.min(1 << 30)).done()
    });
}

/// Without projections, which would use memory of their own
fn run_hostile_raw(what: &str, c: &verif::Connection, bs: &[u8]) -> &'static str {
    match what {
        "header" => call(|| verif::next_header_from_stream(&mut verif::make_result_stream(bs))).name(),
        "frames" => call(|| verif::deserialize_frames(&mut verif::make_result_stream(bs))).name(),
        "integer" => run_hostile(what, c, bs),
        _ => call(|| verif::decode_packets(&mut verif::make_result_stream(bs), c)).name(),
    }
}

// ---------------------------------------------------------------- C21

pub const PARAMS: [&str; 17] = [
    "original_destination_connection_id", "max_idle_timeout", "stateless_reset_token", "max_udp_payload_size", "initial_max_data",
    "initial_max_stream_data_bidi_local", "initial_max_stream_data_bidi_remote", "initial_max_stream_data_uni",
    "initial_max_streams_bidi", "initial_max_streams_uni", "ack_delay_exponent", "max_ack_delay", "disable_active_migration",
    "preferred_address", "active_connection_id_limit", "initial_source_connection_id", "retry_source_connection_id",
];

fn param(r: &mut Rng, kind: &str, bits: u32) -> Rec {
    use Val::*;
    match kind {
        "original_destination_connection_id" | "initial_source_connection_id" | "retry_source_connection_id" => {
            let n = if r.chance(1, 12) { r.below(100) as usize } else { r.below(21) as usize };
            Rec::new(kind, vec![("data", B(r.blob(n)))])
        }
        "stateless_reset_token" => Rec::new(kind, vec![("data", B(r.blob(16)))]),
        "disable_active_migration" => Rec::new(kind, vec![]),
        "preferred_address" => {
            let n = if r.chance(1, 12) { *r.pick(&[21, 255, 256, 257, 300]) } else { r.below(21) as usize };
            Rec::new(kind, vec![
                ("ip4", B(r.blob(4))), ("port4", U(r.int(16))), ("ip6", B(r.blob(16))), ("port6", U(r.int(16))),
                ("cid", B(r.blob(n))), ("token", B(r.blob(16))),
            ])
        }
        "max_udp_payload_size" => Rec::new(kind, vec![("v", U(r.int(bits).max(if r.flag() { 1200 } else { 0 })))]),
        "ack_delay_exponent" | "max_ack_delay" if r.flag() => Rec::new(kind, vec![("v", U(r.below(21)))]),
        _ => Rec::new(kind, vec![("v", U(r.int(bits)))]),
    }
}

fn param_json(p: &Rec) -> String {
    // ports have two bytes
    let mut s = format!("{{\"t\":\"{}\"", p.kind);
    for (n, v) in &p.fields {
        let j = match v {
            Val::U(x) if n.starts_with("port") => out::bytes(&(*x as u16).to_be_bytes()),
            Val::U(x) => out::bytes(&x.to_be_bytes()),
            Val::B(x) => out::bytes(x),
            _ => unreachable!(),
        };
        s += &format!(",\"{}\":{}", n, j);
    }
    s + "}"
}

fn param_bytes(p: &Rec) -> Option<Vec<u8>> {
    let id = PARAMS.iter().position(|x| *x == p.kind).unwrap() as u8;
    let value = match &p.kind[..] {
        "disable_active_migration" => vec![],
        "preferred_address" => {
            if p.bytes("cid").len() > 20 { return None }
            [p.bytes("ip4"), (p.int("port4") as u16).to_be_bytes().to_vec(), p.bytes("ip6"), (p.int("port6") as u16).to_be_bytes().to_vec(),
                vec![p.bytes("cid").len() as u8], p.bytes("cid"), p.bytes("token")].concat()
        }
        _ => match &p.fields[0].1 {
            Val::B(x) => x.clone(),
            Val::U(x) if *x <= refm::MAX_VARINT => refm::vi(*x),
            _ => return None,
        },
    };
    Some([vec![id], refm::vi(value.len() as u64), value].concat())
}

#[cfg(not(quic_sea_verif = "no_params"))]
pub fn c21(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let bits = if r.chance(1, 10) { 64 } else { 62 };
    let ps: Vec<Rec> = if i % 2 == 0 {
        vec![param(r, PARAMS[(i / 2) as usize % 17], bits)]
    } else {
        (0..r.below(6)).map(|_| { let k = *r.pick(&PARAMS); param(r, k, bits) }).collect()
    };
    let got: Out<Vec<u8>> = call(|| {
        let mut v = vec![];
        for p in &ps { v.extend(verif::transport_parameters::serialize(p)?); }
        Ok::<_, verif::Error>(v)
    });
    let want = ps.iter().map(param_bytes).collect::<Option<Vec<_>>>().map(|x| x.concat());
    for p in &ps { b.count(&p.kind); }
    let suspicious = match (&got, &want) { (Out::Ok(a), Some(w)) => a != w, (Out::Err, None) => false, _ => true };
    emit(b, keep, suspicious, || {
        Obj::new("params").raw("params", &out::list(ps.iter().map(param_json))).s("out", got.name()).b("bs", &got.clone().ok().unwrap_or_default()).done()
    });
}

#[allow(dead_code)]
fn unused(_: &Got) {}

//! Histories of real connections and headers that need no socket: packet numbers, keys,
//! header protection.  Each history is a list of steps for a trace specification.
use crate::gen;
use crate::out::{call, Batch, Obj, Out};
use crate::refm::{self, Keys, Oracle, Plain, Rx, Space};
use crate::rng::Rng;
use crate::sut::{self, pns, End};
use quic_sea::verif::{self, Connection, LongPacketHeader, PacketHandshake, PacketInitial, Rec, ShortPacketHeader};
use serde_json::Value;

pub fn step(op: &str) -> Obj {
    Obj(format!("{{\"op\":\"{}\"", op))
}

pub fn history(b: &mut Batch, extra: &str, steps: Vec<String>) {
    b.lines.push(format!("{{{}\"steps\":[{}]}}", extra, steps.join(",")));
}

fn number(v: &Value) -> u64 {
    v.as_array().unwrap().iter().fold(0, |a, x| a << 8 | x.as_u64().unwrap())
}

fn octets(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

pub fn given_ops(given: &[String], i: u64) -> Option<Vec<Value>> {
    given.get(i as usize).map(|l| serde_json::from_str::<Value>(l).unwrap().as_array().unwrap().clone())
}

pub fn space_of(s: &str) -> Space {
    match s {
        "initial" => Space::Initial,
        "handshake" => Space::Handshake,
        _ => Space::App,
    }
}

fn plain_frames(r: &mut Rng) -> Vec<Rec> {
    let mut v = vec![Rec::new("ping", vec![])];
    let n = r.range(3, 8);
    v.extend((0..n).map(|_| Rec::new("padding", vec![])));
    v
}

fn build_frames(fs: &[Rec]) -> Vec<verif::Frame> {
    fs.iter().map(|f| verif::frame::build(&refm::buildable(f))).collect()
}

/// A packet built by the library
pub enum Built {
    Initial(PacketInitial),
    Handshake(PacketHandshake),
}

impl Built {
    fn new(kind: &str, fs: &[Rec], c: &mut Connection) -> Out<Built> {
        Built::with_token(kind, fs, &[], c)
    }
    pub fn with_token(kind: &str, fs: &[Rec], token: &[u8], c: &mut Connection) -> Out<Built> {
        call(|| -> Result<Built, verif::Error> {
            Ok(if kind == "initial" {
                let token = if token.is_empty() { None } else { Some(token.to_vec()) };
                Built::Initial(PacketInitial::new(build_frames(fs), token, c)?)
            } else {
                Built::Handshake(PacketHandshake::new(build_frames(fs), c)?)
            })
        })
    }
    pub fn view(&self) -> verif::packet::PacketView {
        match self {
            Built::Initial(p) => verif::packet::initial_view(p),
            Built::Handshake(p) => verif::packet::handshake_view(p),
        }
    }
    pub fn serialize(&self, c: &Connection) -> Out<Vec<u8>> {
        call(|| match self {
            Built::Initial(p) => verif::packet::serialize_initial(p, c),
            Built::Handshake(p) => verif::packet::serialize_handshake(p, c),
        })
    }
}

// ---------------------------------------------------------------------- C05

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Via {
    /// the functions that truncate and reconstruct
    Numbers(Space),
    /// whole packets that the library builds and decodes
    Packets(&'static str),
    /// whole packets sealed by the reference with the library's truncated number
    Sealed(&'static str),
}

enum LinkOp {
    Send,
    Lose(u64),
    Deliver(usize),
    Ack(u64),
}

pub fn link(i: u64, r: &mut Rng, b: &mut Batch, given: &[String]) {
    let via = match r.below(8) {
        0 => Via::Numbers(Space::Initial),
        1 => Via::Numbers(Space::Handshake),
        2 => Via::Numbers(Space::App),
        3 => Via::Packets("initial"),
        4 => Via::Packets("handshake"),
        5 => Via::Sealed("zerortt"),
        6 => Via::Sealed("onertt"),
        _ => Via::Sealed(*r.pick(&["initial", "handshake"])),
    };
    let space = match via {
        Via::Numbers(s) => s,
        Via::Packets(k) | Via::Sealed(k) => Space::of(k),
    };
    let mut e = gen::end(r);
    e.received = [None; 3];
    e.acked = [None; 3];
    // the other spaces are elsewhere
    for s in refm::SPACES {
        if s.idx() != space.idx() && r.flag() {
            e.acked[s.idx()] = Some(r.int(40));
            e.last_sent[s.idx()] = Some(e.acked[s.idx()].unwrap() + r.int(20));
        }
        // and what this end received makes no difference
        e.received[s.idx()] = r.flag().then(|| r.int(40));
    }
    let mut peer = e.other();
    peer.scid = Some(vec![7; 8]);
    for s in refm::SPACES {
        if s.idx() != space.idx() && r.flag() {
            peer.received[s.idx()] = Some(r.int(60));
        }
    }
    let (mut c, mut pc) = match (e.connection(), peer.connection()) { (Some(a), Some(b)) => (a, b), _ => return };
    let keys = e.tx_keys(true);
    let mut steps = vec![];
    let mut last: Option<u64> = None;
    let mut acked: Option<u64> = None;
    let mut largest: Option<u64> = None;
    // number, truncated number, wire image
    let mut sent: Vec<(u64, Vec<u8>, Vec<u8>)> = vec![];
    let mut got: Vec<u64> = vec![];
    let script = given_ops(given, i);
    let len = script.as_ref().map_or(if i % 400 == 399 { 500 } else { r.range(15, 60) as usize }, |s| s.len());
    for k in 0..len {
        let op = match &script {
            Some(s) => match s[k]["op"].as_str().unwrap() {
                "send" => LinkOp::Send,
                "lose" => LinkOp::Lose(number(&s[k]["last"])),
                "deliver" => LinkOp::Deliver(s[k]["i"].as_u64().unwrap() as usize - 1),
                _ => LinkOp::Ack(number(&s[k]["pn"])),
            },
            None => match r.below(10) {
                0..=3 => LinkOp::Send,
                4 => {
                    // to an edge of a window, seen from what was acknowledged, received or sent
                    let from = match r.below(3) { 0 => acked, 1 => largest, _ => last }.unwrap_or(0);
                    let e = *r.pick(&[0, 3, 7, 7, 8, 15, 15, 16, 23, 23, 24, 30, 31]);
                    LinkOp::Lose((from + (1u64 << e) + r.below(5)).saturating_sub(3))
                }
                5..=7 => {
                    let n = sent.len() as u64;
                    LinkOp::Deliver(if n == 0 { 0 } else if r.chance(1, 3) { r.below(n) } else { n - 1 - r.below(n.min(3)) } as usize)
                }
                _ => {
                    if got.is_empty() { LinkOp::Send } else {
                        let m = *got.iter().max().unwrap();
                        LinkOp::Ack(if r.flag() { m } else { *r.pick(&got) })
                    }
                }
            },
        };
        match op {
            LinkOp::Send => {
                let got: Out<(u64, Vec<u8>, Vec<u8>)> = match via {
                    Via::Numbers(_) => call(|| c.get_next_pn(pns(space))).map(|(a, b)| (a, b, vec![])),
                    Via::Packets(kind) => {
                        let fs = plain_frames(r);
                        match Built::new(kind, &fs, &mut c) {
                            Out::Ok(p) => {
                                let v = p.view();
                                p.serialize(&c).map(|w| (v.packet_number, v.packet_number_bytes, w))
                            }
                            Out::Err => Out::Err,
                            Out::Panic => Out::Panic,
                        }
                    }
                    Via::Sealed(kind) => call(|| c.get_next_pn(pns(space))).map(|(pn, t)| {
                        let w = if (1..=4).contains(&t.len()) {
                            let dcid = if kind == "onertt" { vec![9; 8] } else { vec![9; 5] };
                            let x = Plain { kind, bits: 0, version: 1, dcid, scid: vec![1, 2], token: vec![], pn, n: t.len(), pt: vec![1, 0, 0, 0, 0], len_form: 1, token_form: 1 };
                            refm::protect(&x, keys[space.idx()].as_ref().unwrap(), &mut Oracle::default())
                        } else {
                            vec![]
                        };
                        (pn, t, w)
                    }),
                };
                b.count(&match via { Via::Numbers(s) => format!("sent, numbers only, {}", s.name()), Via::Packets(k) => format!("sent, {} packets", k), Via::Sealed(k) => format!("sent, {} packets sealed by the reference", k) });
                let name = got.name();
                let (pn, t, w) = got.ok().unwrap_or_default();
                steps.push(step("send").s("out", name).u("pn", pn).b("bytes", &t).done());
                if name == "ok" && (1..=4).contains(&t.len()) {
                    b.count(&format!("truncated to {} bytes", t.len()));
                    last = Some(pn);
                    sent.push((pn, t, w));
                }
            }
            LinkOp::Lose(pn) => {
                if last.map_or(pn > 0, |l| pn > l) && pn < 1 << 61 {
                    sut::set_last(&mut c, space, pn);
                    last = Some(pn);
                    steps.push(step("lose").u("last", pn).done());
                }
            }
            LinkOp::Deliver(n) => {
                if n < sent.len() {
                    let (pn, t, w) = &sent[n];
                    let out: Out<u64> = match via {
                        Via::Numbers(_) => call(|| pc.reconstruct_remote_pn(pns(space), t)),
                        _ => match sut::decode(&pc, w) {
                            Out::Ok(ps) if ps.len() == 1 => Out::Ok(ps[0].pn),
                            Out::Panic => Out::Panic,
                            _ => Out::Err,
                        },
                    };
                    steps.push(step("deliver").n("i", n + 1).s("out", out.name()).u("pn", out.clone().ok().unwrap_or(0)).done());
                    if out == Out::Ok(*pn) {
                        got.push(*pn);
                        if largest.map_or(true, |l| l < *pn) {
                            largest = Some(*pn);
                            pc.verif_set_largest_received(pns(space), largest);
                        }
                    } else {
                        b.count("reordered too far");
                    }
                }
            }
            LinkOp::Ack(pn) => {
                if largest.map_or(false, |l| pn <= l) && got.contains(&pn) {
                    steps.push(step("ack").u("pn", pn).done());
                    if acked.map_or(true, |a| a < pn) {
                        acked = Some(pn);
                        c.verif_set_largest_acked(pns(space), acked);
                    }
                }
            }
        }
    }
    b.count(if script.is_some() { "behaviours of the specification" } else { "random histories" });
    history(b, "", steps);
}

// ---------------------------------------------------------------------- C06

struct Counters {
    e: End,
    c: Connection,
    scid: bool,
    last: [Option<u64>; 3],
    acked: [Option<u64>; 3],
    /// a packet built earlier
    old: Option<Built>,
}

fn unencodable(r: &mut Rng) -> Rec {
    match r.below(3) {
        0 => refm::stream(1 << 62, 0, vec![1], false),
        1 => refm::crypto(u64::MAX, vec![2]),
        _ => refm::ack(u64::MAX, 0, 0, vec![], vec![]),
    }
}

pub fn spaces(i: u64, r: &mut Rng, b: &mut Batch, given: &[String]) {
    let script = given_ops(given, i);
    let n = if script.is_some() { 3 } else { r.range(1, 3) as usize };
    let mut cs = vec![];
    for _ in 0..n {
        let mut e = gen::end(r);
        e.received = [None; 3];
        let scid = r.chance(9, 10);
        if !scid {
            e.scid = None;
        }
        let c = match e.connection() { Some(c) => c, None => return };
        cs.push(Counters { e, c, scid, last: [None; 3], acked: [None; 3], old: None });
    }
    let mut steps = vec![];
    let len = script.as_ref().map_or(if i % 400 == 399 { 1200 } else { r.range(15, 60) as usize }, |s| s.len());
    let names = ["initial", "handshake", "app"];
    let next = |x: &mut Counters, k: usize, s: Space, steps: &mut Vec<String>, b: &mut Batch| {
        let got = call(|| x.c.get_next_pn(pns(s)));
        let name = got.name();
        let (pn, t) = got.ok().unwrap_or_default();
        b.count(&format!("number in {}", s.name()));
        steps.push(step("next").n("conn", k + 1).s("space", s.name()).s("out", name).u("pn", pn).b("bytes", &t).done());
        if name == "ok" {
            x.last[s.idx()] = Some(pn);
        }
    };
    for j in 0..len {
        let (op, k, name, wire, how, to) = match &script {
            Some(s) => {
                let o = &s[j];
                let name = if o["space"].is_string() { o["space"].as_str() } else { o["kind"].as_str() }.unwrap();
                (o["op"].as_str().unwrap().to_string(), o["conn"].as_u64().unwrap() as usize - 1, name.to_string(),
                 o["wire"].as_bool().unwrap_or(false), o["how"].as_str().unwrap_or("good").to_string(), o["to"].as_u64())
            }
            None => {
                let op = *r.pick(&["next", "next", "build", "build", "build", "jump", "ack", "recv", "install", "decode", "again"]);
                let how = if r.chance(1, 4) { *r.pick(&["noscid", "badframe", "nokeys"]) } else { "good" };
                let name = if op == "build" { names[r.below(2) as usize] } else { names[r.below(3) as usize] };
                (op.to_string(), r.below(n as u64) as usize, name.to_string(), r.flag(), how.to_string(), None)
            }
        };
        let s = space_of(&name);
        let x = &mut cs[k];
        match op.as_str() {
            "next" => next(x, k, s, &mut steps, b),
            "build" => {
                let mut fs = plain_frames(r);
                let mut taken = None;
                match how.as_str() {
                    "badframe" => { fs.insert(0, unencodable(r)); }
                    "nokeys" => {
                        // the keys are away while the packet is serialized
                        taken = Some(());
                    }
                    // a connection without its own id cannot build anything
                    "noscid" if x.scid && script.is_none() => {}
                    _ => {}
                }
                let p = Built::new(&name, &fs, &mut x.c);
                if taken.is_some() {
                    x.c.verif_install(pns(s), None, None);
                }
                let o = step("build").n("conn", k + 1).s("kind", &name).s("out", p.name());
                b.count(&format!("{} packet {} {}", name, how, p.name()));
                match p {
                    Out::Ok(p) => {
                        let v = p.view();
                        let w = if wire { Some(p.serialize(&x.c)) } else { None };
                        // what the peer makes of it, being just behind
                        let mut seen = (0, 0);
                        let mut what = "none";
                        if let Some(w) = &w {
                            what = w.name();
                            if let Out::Ok(bs) = w {
                                let mut rx = Rx { keys: x.e.tx_keys(true), largest: [None; 3] };
                                rx.largest[s.idx()] = v.packet_number.checked_sub(1);
                                match refm::unprotect(bs, &rx, &mut Oracle::default()) {
                                    Some(g) if g.len() == 1 => seen = (g[0].pn, g[0].header[0]),
                                    // what is wrong with it otherwise is not decided here
                                    _ => what = "none",
                                }
                            }
                        }
                        steps.push(o.u("pn", v.packet_number).b("pnbytes", &v.packet_number_bytes).n("first", v.header.bytes[0] as usize)
                            .s("wire", what).u("wirepn", seen.0).n("wirefirst", seen.1 as usize).done());
                        x.last[s.idx()] = Some(v.packet_number);
                        x.old = Some(p);
                    }
                    _ => steps.push(o.done()),
                }
                if taken.is_some() {
                    reinstall(x, s);
                }
            }
            "jump" => {
                let to = match to {
                    Some(t) => t,
                    None => {
                        let l = x.last[s.idx()].unwrap_or(0);
                        match r.below(4) { 0 => l + r.int(16), 1 => l + r.below(5), 2 => l + (1 << 31) - 1 + r.int(34), _ => r.int(60) }
                    }
                };
                if x.last[s.idx()].map_or(to > 0, |l| to > l) && to < 1 << 60 {
                    sut::set_last(&mut x.c, s, to);
                    x.last[s.idx()] = Some(to);
                    steps.push(step("jump").n("conn", k + 1).s("space", s.name()).u("pn", to).done());
                }
            }
            "ack" => {
                if let Some(l) = x.last[s.idx()] {
                    let a = match r.below(3) { 0 => l, 1 => l.saturating_sub(r.int(10)), _ => l / 2 };
                    let a = x.acked[s.idx()].map_or(a, |o| o.max(a));
                    x.acked[s.idx()] = Some(a);
                    x.c.verif_set_largest_acked(pns(s), Some(a));
                    steps.push(step("ack").n("conn", k + 1).s("space", s.name()).u("pn", a).done());
                }
            }
            "recv" => {
                x.c.verif_set_largest_received(pns(s), Some(r.int(61)));
                steps.push(step("quiet").s("what", "received").done());
            }
            "install" => {
                x.e.secrets = [gen::secret_pair(r), gen::secret_pair(r)];
                reinstall(x, Space::Handshake);
                reinstall(x, Space::App);
                steps.push(step("quiet").s("what", "install").done());
            }
            "decode" => {
                let mut bs = r.bytes(60);
                bs[0] = *r.pick(&[0xc0, 0xd0, 0xe0, 0x40]);
                if r.flag() {
                    let kind = *r.pick(&gen::PROTECTED);
                    let (p, _) = gen::packet_for(r, &x.e.clone(), kind, 20);
                    let keys = x.e.tx_keys(false);
                    bs = refm::protect(&p, keys[Space::of(kind).idx()].as_ref().unwrap(), &mut Oracle::default());
                }
                let _ = sut::decode(&x.c, &bs);
                let _ = call(|| x.c.reconstruct_remote_pn(pns(s), &bs[1..3]));
                steps.push(step("quiet").s("what", "decode").done());
            }
            "again" => {
                // the same packet is serialized once more
                if let Some(p) = &x.old {
                    let _ = p.serialize(&x.c);
                    steps.push(step("quiet").s("what", "again").done());
                }
            }
            _ => unreachable!(),
        }
    }
    // where all of them are in the end
    for k in 0..n {
        for s in refm::SPACES {
            next(&mut cs[k], k, s, &mut steps, b);
        }
    }
    b.count(if script.is_some() { "behaviours of the specification" } else { "random histories" });
    history(b, &format!("\"conns\":{},", n), steps);
}

fn reinstall(x: &mut Counters, s: Space) {
    let (a, b) = match s {
        Space::Initial => {
            let id = &x.e.dcid;
            let mk = |server| call(|| verif::Secrets::from_initial(server, id, &verif::Version::V1)).ok();
            (mk(x.e.server), mk(!x.e.server))
        }
        _ => {
            let p = &x.e.secrets[if s.idx() == 1 { 0 } else { 1 }];
            let mk = |v: &Vec<u8>| call(|| verif::secrets::from_secret(v)).ok();
            match p {
                Some((c, sv)) => if x.e.server { (mk(sv), mk(c)) } else { (mk(c), mk(sv)) },
                None => (None, None),
            }
        }
    };
    x.c.verif_install(pns(s), a, b);
}

// ---------------------------------------------------------------------- C19

pub fn keys(i: u64, r: &mut Rng, b: &mut Batch, given: &[String]) {
    let script = given_ops(given, i);
    let server = r.flag();
    let dcid = gen::id(r, 20);
    let mut e = End::new(server, &dcid);
    e.scid = Some(gen::id(r, 20));
    let mut c = match e.connection() { Some(c) => c, None => return };
    let secrets: Vec<Vec<u8>> = (0..4).map(|_| r.bytes(32)).collect();
    // by name - 1
    let mut all: Vec<Keys> = vec![refm::initial_keys(server, &dcid), refm::initial_keys(!server, &dcid)];
    all.extend(secrets.iter().map(|s| refm::secret_keys(s)));
    // what is in the spaces, to choose keys that fit
    let mut now = [[1usize, 2], [0, 0], [0, 0]];
    let mut steps = vec![];
    let len = script.as_ref().map_or(if i % 400 == 399 { 500 } else { r.range(15, 50) as usize }, |s| s.len());
    let spaces = ["initial", "handshake", "app"];
    for j in 0..len {
        let (op, name, local, remote, mut key) = match &script {
            Some(s) => {
                let o = &s[j];
                let name = if o["space"].is_string() { o["space"].as_str() } else { o["kind"].as_str() }.unwrap();
                let n = |f: &str| o[f].as_u64().unwrap_or(0) as usize;
                (o["op"].as_str().unwrap().to_string(), name.to_string(), n("local"), n("remote"), n("key"))
            }
            None => {
                let op = *r.pick(&["install", "install", "send", "send", "recv", "recv", "recv", "recv", "seal", "open", "lmask", "rmask", "size"]);
                let name = match op {
                    "send" => *r.pick(&["initial", "handshake"]),
                    "recv" => *r.pick(&gen::PROTECTED),
                    _ => *r.pick(&spaces),
                };
                let mut some = || if r.chance(1, 3) { 0 } else { r.range(3, 6) as usize };
                let (l, m) = (some(), some());
                (op.to_string(), name.to_string(), l, m, r.range(1, 6) as usize)
            }
        };
        let s = match op.as_str() { "send" | "recv" => Space::of(&name), _ => space_of(&name) };
        let fit = now[s.idx()][1];
        if script.is_none() && fit != 0 && r.flag() {
            key = fit;
        }
        let k = key.checked_sub(1).map(|x| all[x].clone());
        let names = |f: &dyn Fn(&Keys) -> bool| {
            let v: Vec<String> = all.iter().enumerate().filter(|(_, k)| f(k)).map(|(n, _)| (n + 1).to_string()).collect();
            format!("[{}]", v.join(","))
        };
        let pn = r.int(8).max(1);
        match op.as_str() {
            "install" => {
                let mk = |n: usize| if n == 0 { None } else { call(|| verif::secrets::from_secret(&secrets[n - 3])).ok() };
                c.verif_install(pns(s), mk(local), mk(remote));
                now[s.idx()] = [local, remote];
                steps.push(step("install").s("space", s.name()).n("local", local).n("remote", remote).done());
            }
            "send" => {
                let fs = plain_frames(r);
                let (o, v) = match Built::new(&name, &fs, &mut c) {
                    Out::Ok(p) => (p.serialize(&c), p.view().packet_number),
                    Out::Err => (Out::Err, 0),
                    Out::Panic => (Out::Panic, 0),
                };
                let outn = o.name();
                let bs = o.ok().unwrap_or_default();
                let opens = names(&|k| {
                    let mut rx = Rx { keys: [None, None, None], largest: [None; 3] };
                    rx.keys[s.idx()] = Some(k.clone());
                    rx.largest[s.idx()] = v.checked_sub(1);
                    refm::unprotect(&bs, &rx, &mut Oracle::default()).map_or(false, |g| g.len() == 1)
                });
                steps.push(step("send").s("kind", &name).s("out", outn).raw("opens", &opens).done());
            }
            "recv" => {
                let kind = *gen::PROTECTED.iter().find(|x| **x == name).unwrap();
                let dcid = if kind == "onertt" { r.bytes(8) } else { gen::id(r, 20) };
                let x = Plain { kind, bits: 0, version: 1, dcid, scid: gen::id(r, 20), token: vec![], pn, n: r.range(1, 4) as usize, pt: vec![1, 0, 0, 0, 0], len_form: 1, token_form: 1 };
                let bs = refm::protect(&x, k.as_ref().unwrap(), &mut Oracle::default());
                let o = sut::decode(&c, &bs);
                b.count(&format!("received {} {}", kind, o.name()));
                steps.push(step("recv").s("kind", kind).n("key", key).s("out", o.name()).done());
            }
            "seal" => {
                let (pt, aad) = (r.bytes(20), r.bytes(12));
                let o = call(|| c.encrypt_local_payload(pns(s), &pt, &aad, pn));
                let outn = o.name();
                let ct = o.ok().unwrap_or_default();
                let opens = names(&|k| refm::gcm_open(&k.key, &refm::nonce(&k.iv, pn), &aad, &ct).map_or(false, |p| p == pt));
                steps.push(step("seal").s("space", s.name()).s("out", outn).raw("opens", &opens).done());
            }
            "open" => {
                let (pt, aad) = (r.bytes(20), r.bytes(12));
                let k = k.unwrap();
                let ct = refm::gcm_seal(&k.key, &refm::nonce(&k.iv, pn), &aad, &pt);
                let o = call(|| c.decrypt_remote_payload(pns(s), &ct, &aad, pn));
                let o = match o { Out::Ok(p) if p != pt => "wrong", o => o.name() };
                steps.push(step("open").s("space", s.name()).n("key", key).s("out", o).done());
            }
            "lmask" | "rmask" => {
                let sample = r.bytes(16);
                let local = op == "lmask";
                let o = call(|| {
                    let st = &mut verif::make_result_stream(&sample[..]);
                    if local { c.get_local_hp_mask(pns(s), st) } else { c.get_remote_hp_mask(pns(s), st) }
                });
                let outn = o.name();
                let m = o.ok();
                let opens = names(&|k| m.map_or(false, |m| refm::hp_mask(&k.hp, &sample) == m));
                steps.push(step("mask").s("space", s.name()).s("dir", if local { "local" } else { "remote" }).s("out", outn).raw("opens", &opens).done());
            }
            _ => {
                let o = call(|| c.get_local_protected_payload_len(pns(s), 20));
                steps.push(step("size").s("space", s.name()).s("out", o.name()).done());
            }
        }
        b.count(&op);
    }
    b.count(if script.is_some() { "behaviours of the specification" } else { "random histories" });
    history(b, "", steps);
}

// ---------------------------------------------------------------------- C20

enum Head {
    Long(LongPacketHeader),
    Short(ShortPacketHeader),
}

enum HeadOp {
    Add([u8; 5]),
    Remove([u8; 5]),
    Read,
    Mask(Vec<u8>, [u8; 5]),
}

/// Every first byte with every first byte of a mask, long and short
pub const SWEEP: u64 = 2 * 256 * 256;

pub fn header(i: u64, r: &mut Rng, b: &mut Batch, given: &[String], keep: bool) {
    let script = given_ops(given, i);
    let mut mask5 = |first: u8| { let v = r.bytes(4); [first, v[0], v[1], v[2], v[3]] };
    let (long, hidden, first, ops): (bool, bool, u8, Vec<HeadOp>);
    let mut keep = keep;
    match &script {
        Some(s) => {
            let m = |v: &Value| { let o = octets(v); [o[0], o[1], o[2], o[3], o[4]] };
            long = s[0]["long"].as_bool().unwrap();
            hidden = s[0]["hidden"].as_bool().unwrap();
            first = s[0]["byte"].as_u64().unwrap() as u8;
            ops = s[1..].iter().map(|o| match o["op"].as_str().unwrap() {
                "add" => HeadOp::Add(m(&o["mask"])),
                "remove" => HeadOp::Remove(m(&o["mask"])),
                "mask" => HeadOp::Mask(octets(&o["pn"]), m(&o["mask"])),
                _ => HeadOp::Read,
            }).collect();
            b.count("behaviours of the specification");
            keep = true;
        }
        None if i - (given.len() as u64) < SWEEP => {
            let j = i - given.len() as u64;
            long = j & 1 == 1;
            first = (j >> 1) as u8;
            let m = mask5((j >> 9) as u8);
            let other = mask5(!((j >> 9) as u8));
            hidden = true;
            if long != (first & 0x80 != 0) {
                return;
            }
            ops = vec![HeadOp::Read, HeadOp::Add(other), HeadOp::Remove(m), HeadOp::Read, HeadOp::Remove(other), HeadOp::Read,
                HeadOp::Add(m), HeadOp::Read, HeadOp::Add(other), HeadOp::Remove(m), HeadOp::Read, HeadOp::Mask(first.to_be_bytes().to_vec(), m)];
            b.count("first bytes and masks");
        }
        None => {
            long = r.flag();
            hidden = !long || r.flag();
            first = if long { 0x80 | r.byte() } else { r.byte() & 0x7f };
            let masks: Vec<[u8; 5]> = (0..3).map(|_| { let v = r.blob(5); [v[0], v[1], v[2], v[3], v[4]] }).collect();
            ops = (0..r.range(4, 25)).map(|_| {
                let m = *r.pick(&masks);
                match r.below(8) {
                    0 | 1 => HeadOp::Add(m),
                    2 | 3 => HeadOp::Remove(m),
                    4 => { let n = r.range(1, 5) as usize; HeadOp::Mask(r.blob(n), m) }
                    _ => HeadOp::Read,
                }
            }).collect();
            b.count("random histories");
        }
    }
    let negotiates = long && script.is_none() && r.below(16) == 0;
    // no protected bits: removing protection changes nothing, adding is not meant for these
    let bare = long && (negotiates || first & 0x30 == 0x30);
    let ops: Vec<HeadOp> = if bare { ops.into_iter().filter(|o| matches!(o, HeadOp::Remove(_) | HeadOp::Mask(..))).collect() } else { ops };
    if bare && !hidden {
        return;
    }
    if bare {
        b.count("headers without protection");
    }
    let version = if negotiates { [0u8; 4] } else if script.is_none() && r.chance(1, 4) { gen::other_version(r).to_be_bytes() } else { [0, 0, 0, 1] };
    let cids = (gen::id(r, 20), gen::id(r, 20));
    let mut head = if hidden {
        let rest = if long {
            [&version[..], &[cids.0.len() as u8], &cids.0, &[cids.1.len() as u8], &cids.1].concat()
        } else {
            r.bytes(8)
        };
        let st = &mut verif::make_result_stream(&rest[..]);
        let h = if long { call(|| LongPacketHeader::from_stream(st, first)).map(Head::Long) } else { call(|| ShortPacketHeader::from_stream(st, first)).map(Head::Short) };
        match h { Out::Ok(h) => h, _ => return }
    } else {
        let mut e = End::new(r.flag(), &cids.0);
        e.scid = Some(cids.1);
        let c = match e.connection() { Some(c) => c, None => return };
        match call(|| LongPacketHeader::from_connection(&c, first)) { Out::Ok(h) => Head::Long(h), _ => return }
    };
    let bytes = |h: &Head| match h { Head::Long(x) => x.to_bytes(), Head::Short(x) => x.to_bytes() };
    let start = bytes(&head);
    let mut steps = vec![step("start").f("long", long).f("hidden", hidden).b("bytes", &start).done()];
    // what it should be
    let (mut want, mut masked) = (first, hidden && !bare);
    let bits = if long { 0x0f } else { 0x1f };
    let mut fine = start[0] == first;
    for op in &ops {
        match op {
            HeadOp::Add(m) | HeadOp::Remove(m) => {
                let add = matches!(op, HeadOp::Add(_));
                let o = call(|| -> Result<(), ()> {
                    match (&mut head, add) {
                        (Head::Long(x), true) => x.add_protection(m),
                        (Head::Long(x), false) => x.remove_protection(m),
                        (Head::Short(x), true) => x.add_protection(m),
                        (Head::Short(x), false) => x.remove_protection(m),
                    }
                    Ok(())
                });
                if masked != add {
                    want ^= m[0] & bits;
                    masked = add;
                }
                let now = if o.is_ok() { bytes(&head) } else { vec![] };
                fine &= now.first() == Some(&want) && now[1..] == start[1..];
                steps.push(step(if add { "add" } else { "remove" }).b("mask", m).b("bytes", &now).done());
            }
            HeadOp::Read => {
                let mut note = |what: &str, o: Out<usize>, right: usize, lax: bool| {
                    fine &= match &o { Out::Ok(x) => (!masked || lax) && *x == right, Out::Err => masked, Out::Panic => false };
                    steps.push(step("read").s("what", what).s("out", o.name()).n("val", o.ok().unwrap_or(0)).done());
                };
                let w = want as usize;
                match &head {
                    Head::Long(x) => note("pnlen", call(|| x.packet_number_length()), (w & 3) + 1, false),
                    Head::Short(x) => {
                        note("pnlen", call(|| x.packet_number_length()), (w & 3) + 1, false);
                        note("spin", call(|| x.spin_bit()).map(|y| y as usize), w >> 5 & 1, true);
                        note("reserved", call(|| x.reserved_bits()).map(|y| y as usize), w >> 3 & 3, false);
                        note("phase", call(|| x.key_phase()).map(|y| y as usize), w >> 2 & 1, false);
                    }
                }
                let t = call(|| -> Result<String, ()> { Ok(format!("{:?}", match &head { Head::Long(x) => x.packet_type(), Head::Short(x) => x.packet_type() })) });
                let n = t.name();
                let t = t.ok().map_or("other", |d| sut::type_name(&d));
                let right = if long { ["initial", "zerortt", "handshake"][(w >> 4 & 3).min(2)] } else { "onertt" };
                fine &= t == right;
                steps.push(step("read").s("what", "type").s("out", n).s("name", t).done());
            }
            HeadOp::Mask(pn, m) => {
                let mut now = pn.clone();
                let o = call(|| verif::packet::mask_packet_number(&mut now, m));
                let right: Vec<u8> = pn.iter().zip(&m[1..]).map(|(a, b)| a ^ b).collect();
                fine &= if pn.len() <= 4 { o.is_ok() && now == right } else { o == Out::Err };
                steps.push(step("mask").b("pn", pn).b("mask", m).s("out", o.name()).b("after", &now).done());
            }
        }
    }
    if !fine {
        b.suspicious += 1;
    }
    if keep || !fine && b.suspicious < 20 {
        history(b, "", steps);
    }
}

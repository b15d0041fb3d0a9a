//! Histories of a real socket: datagrams over loopback UDP, accepting, draining, dropping.
use crate::gen;
use crate::out::{self, call, Batch, Obj, Out};
use crate::refm::{self, Oracle, Plain};
use crate::rng::Rng;
use crate::sut;
use quic_sea::verif::{self, interface, Rec};
use quic_sea::QuicSocket;
use std::collections::{BTreeMap, BTreeSet};
use std::net::UdpSocket;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// Operations of a behaviour; ids are numbers of issuable ids, 0 is an id never issued
#[derive(Debug, Clone)]
pub enum Op {
    Send { kind: String, to: usize, form: String },
    Accept { script: Vec<usize> },
    /// waiting although nothing can be opened
    Wait,
    Drain(usize),
    Drop(usize),
    Decode(usize),
}

pub fn ops_of(line: &str) -> Vec<Op> {
    let v: serde_json::Value = serde_json::from_str(line).unwrap();
    let n = |x: &serde_json::Value| x.as_u64().unwrap() as usize;
    v.as_array()
        .unwrap()
        .iter()
        .map(|o| match o["op"].as_str().unwrap() {
            "send" => Op::Send { kind: o["kind"].as_str().unwrap().to_string(), to: n(&o["to"]), form: o["form"].as_str().unwrap().to_string() },
            "accept" => Op::Accept { script: o["script"].as_array().unwrap().iter().map(n).collect() },
            "wait" => Op::Wait,
            "drain" => Op::Drain(n(&o["id"])),
            "drop" => Op::Drop(n(&o["id"])),
            "decode" => Op::Decode(n(&o["id"])),
            x => panic!("unknown operation {}", x),
        })
        .collect()
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getcpu() -> i32;
}

/// Datagrams of one thread stay in order when it stays on its processor
pub fn pin() {
    unsafe {
        let cpu = sched_getcpu();
        if cpu >= 0 && cpu < 1024 {
            let mut mask = [0u64; 16];
            mask[cpu as usize / 64] = 1 << (cpu % 64);
            sched_setaffinity(0, 128, mask.as_ptr());
        }
    }
}

/// Accepts that should have opened a connection and did not: each costs seconds, so that
/// after some of them nothing more is tried
static STUCK: AtomicU64 = AtomicU64::new(0);

/// What the table should be, to choose operations and to know the keys of a peer
#[derive(Debug, Clone, Default)]
struct Ref {
    live: BTreeMap<u64, Vec<u8>>,
    net: Vec<Vec<u8>>,
}

impl Ref {
    fn fresh(&self, bs: &[u8]) -> Option<Vec<u8>> {
        let h = refm::header_at(bs, &mut 0)?;
        if h.kind == "initial" && h.version == 1 && !self.target(bs).map_or(false, |x| self.live.contains_key(&x)) { Some(h.dcid) } else { None }
    }
    fn target(&self, bs: &[u8]) -> Option<u64> {
        let h = refm::header_at(bs, &mut 0)?;
        if h.dcid.len() == 8 {
            let mut x = [0; 8];
            x.copy_from_slice(&h.dcid);
            Some(u64::from_be_bytes(x))
        } else {
            None
        }
    }
    /// Takes datagrams up to the one that opens a connection
    fn open(&mut self) -> Option<Vec<u8>> {
        while !self.net.is_empty() {
            let d = self.net.remove(0);
            if let Some(x) = self.fresh(&d) {
                return Some(x);
            }
        }
        None
    }
    fn can_open(&self) -> bool {
        self.net.iter().any(|d| self.fresh(d).is_some())
    }
}

struct World {
    socket: QuicSocket,
    clients: Vec<UdpSocket>,
    ids: Vec<u64>,
    r: Ref,
    handles: BTreeMap<u64, quic_sea::QuicStream>,
    steps: Vec<String>,
    pending: usize,
    ended: bool,
    counts: Vec<String>,
    small: bool,
    /// only changes of the table are recorded; the table as of the last step
    brief: bool,
    table: BTreeMap<[u8; 20], interface::ConnectionView>,
}

fn id20(v: &[u8; 20], n: usize) -> Vec<u8> {
    v[20 - n.min(20)..].to_vec()
}

fn material(x: &Option<(Vec<u8>, Option<Vec<u8>>, Vec<u8>)>) -> String {
    match x {
        None => "[]".to_string(),
        Some((k, iv, hp)) => sut::keys_json(&refm::Keys { key: k.clone(), iv: iv.clone().unwrap_or_default(), hp: hp.clone() }),
    }
}

fn strip(mut v: Vec<u8>) -> Vec<u8> {
    while v.first() == Some(&0) {
        v.remove(0);
    }
    v
}

impl World {
    fn new(r: &mut Rng, ids: Vec<u64>, small: bool) -> Option<World> {
        // logging its traffic makes no difference
        let v6 = r.chance(1, 5) && UdpSocket::bind("[::1]:0").is_ok();
        let at = if v6 { "[::1]:0" } else { "127.0.0.1:0" };
        let socket = if r.chance(1, 4) { interface::bind_logging(at) } else { QuicSocket::bind(at) }.ok()?;
        interface::set_read_timeout(&socket, Duration::from_secs(3));
        let to = interface::local_addr(&socket);
        let n = r.range(1, 2);
        let clients = (0..n)
            .map(|_| {
                // also the same port at different addresses
                let own = if v6 { at.to_string() } else { format!("127.{}.0.{}:0", r.below(3), r.range(1, 3)) };
                let c = UdpSocket::bind(own).or_else(|_| UdpSocket::bind(at)).unwrap();
                c.connect(to).unwrap();
                c
            })
            .collect();
        Some(World {
            socket, clients, ids, r: Ref::default(), handles: BTreeMap::new(), steps: vec![], pending: 0,
            ended: false, counts: vec![], small, brief: false, table: BTreeMap::new(),
        })
    }
    /// The connection table
    fn conns(&self) -> Option<Vec<interface::ConnectionView>> {
        let mut cs = catch_unwind(AssertUnwindSafe(|| interface::connections(&self.socket))).ok()?;
        cs.sort_by_key(|c| c.key);
        Some(cs)
    }
    fn ids_now(&self) -> BTreeSet<u64> {
        self.conns().map_or(BTreeSet::new(), |x| x.iter().map(|c| number(&c.key)).collect())
    }
    fn step(&mut self, o: Obj) {
        self.steps.push(o.done().replacen("{\"k\":", "{\"op\":", 1));
    }
    /// Adds the table to a step; a table that cannot be read ends the history
    fn with_conns(&mut self, o: Obj) -> Obj {
        if self.brief {
            return self.with_changes(o);
        }
        match self.conns() {
            Some(cs) => o.raw("conns", &out::list(cs.iter().map(|c| entry(c).1))),
            None => {
                self.ended = true;
                o.raw("conns", "[]")
            }
        }
    }
    /// Adds what changed in the table since the last step
    fn with_changes(&mut self, o: Obj) -> Obj {
        let cs = match catch_unwind(AssertUnwindSafe(|| interface::connections(&self.socket))) {
            Ok(x) => x,
            Err(_) => {
                self.ended = true;
                return o.raw("conns", "[]");
            }
        };
        let now: BTreeMap<[u8; 20], interface::ConnectionView> = cs.into_iter().map(|c| (c.key, c)).collect();
        let same = |a: &interface::ConnectionView, b: &interface::ConnectionView| (&a.scid, &a.local, &a.remote) == (&b.scid, &b.local, &b.remote);
        let changed = out::list(now.iter().filter(|(k, v)| !self.table.get(*k).map_or(false, |x| same(x, v))).map(|x| entry(x.1).1));
        let gone = out::list(self.table.iter().filter(|(k, _)| !now.contains_key(*k)).map(|(_, v)| out::bytes(&shown(&v.key))));
        self.table = now;
        o.raw("conns", &changed).raw("gone", &gone)
    }
    fn send(&mut self, r: &mut Rng, bs: Vec<u8>) {
        // what does not fit into the receive buffer would be lost
        let cost = bs.len() * 2 + 2048;
        if self.pending + cost > 150_000 && self.pending > 0 {
            return;
        }
        let c = &self.clients[r.below(self.clients.len() as u64) as usize];
        if c.send(&bs).is_err() {
            return;
        }
        self.pending += cost;
        let o = Obj::new("send").b("bs", &bs).s("from", &c.local_addr().unwrap().to_string());
        self.step(o);
        self.r.net.push(bs);
    }
    fn accept(&mut self, script: &[u64], expect: bool) {
        let timeout = if expect { Duration::from_secs(3) } else { Duration::from_millis(300) };
        interface::set_read_timeout(&self.socket, timeout);
        verif::script_connection_ids(script);
        let before = if self.brief { self.table.keys().map(number).collect() } else { self.ids_now() };
        let res = catch_unwind(AssertUnwindSafe(|| self.socket.accept::<()>()));
        verif::script_connection_ids(&[]);
        let after = self.ids_now();
        let grew = after.iter().any(|x| !before.contains(x));
        let mut handle = vec![];
        let out = match res {
            Ok(Ok(s)) => {
                let id = interface::handle_id(&s).to_bytes();
                handle.push(id[12..].to_vec());
                let mut x = [0; 8];
                x.copy_from_slice(&id[12..]);
                self.handles.insert(u64::from_be_bytes(x), s);
                "opened"
            }
            Ok(Err(e)) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => "timeout",
            Ok(Err(_)) => "err",
            // what follows the registration of a connection is not implemented yet
            Err(p) => {
                let text = p.downcast_ref::<&str>().map(|x| x.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
                if text.starts_with("not yet implemented") || grew { "opened" } else { "panic" }
            }
        };
        let mut kdf = refm::Kdf::default();
        let opened = self.r.open();
        if let Some(d) = &opened {
            kdf.initial(true, d);
            kdf.initial(false, d);
        }
        self.pending = self.r.net.iter().map(|x| x.len() * 2 + 2048).sum();
        let o = Obj::new("accept").s("out", out).raw("o", &sut::kdf_json(&kdf)).raw("handle", &out::list(handle.iter().map(|x| out::bytes(x))));
        let o = self.with_conns(o);
        self.step(o);
        let new: Vec<u64> = after.into_iter().filter(|x| !before.contains(x)).collect();
        match (opened, &new[..], out) {
            (Some(d), [x], "opened") => {
                self.r.live.insert(*x, d);
            }
            (None, [], "timeout") => {}
            _ => {
                self.ended = true;
                STUCK.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
    fn drain(&mut self, id: u64) {
        let key = verif::u160(&id.to_be_bytes());
        let got = call(|| interface::drain(&self.socket, key).ok_or(()));
        let list = match &got { Out::Ok(x) => x.clone(), _ => vec![] };
        let o = Obj::new("drain").b("id", &id.to_be_bytes()).s("out", got.name()).raw(
            "got",
            &out::list(list.iter().map(|(d, a)| format!("{{\"bs\":{},\"from\":\"{}\"}}", out::bytes(d), a))),
        );
        let o = self.with_conns(o);
        self.step(o);
        self.counts.push(format!("drained {}", if list.is_empty() { "nothing" } else { "datagrams" }));
    }
    fn drop_connection(&mut self, id: u64) {
        let key = verif::u160(&id.to_be_bytes());
        let h = self.handles.remove(&id).unwrap_or_else(|| interface::handle(&self.socket, key));
        let got = call(move || -> Result<(), ()> {
            drop(h);
            Ok(())
        });
        let o = Obj::new("drop").b("id", &id.to_be_bytes()).s("out", got.name());
        let o = self.with_conns(o);
        self.step(o);
        self.r.live.remove(&id);
    }
    /// Decoding of a datagram on behalf of the connection it is addressed to; mostly from the
    /// client of that connection, also from the client of another one
    fn decode(&mut self, r: &mut Rng, id: u64) {
        let dcid = if r.chance(1, 4) {
            match r.below(2) { 0 => gen::id(r, 20), _ => { let xs: Vec<_> = self.r.live.values().cloned().collect(); if xs.is_empty() { vec![] } else { r.pick(&xs).clone() } } }
        } else {
            match self.r.live.get(&id) { Some(d) => d.clone(), None => gen::id(r, 20) }
        };
        let mut o = Oracle::default();
        let bs = initial(r, &dcid, id.to_be_bytes().to_vec(), 60, &mut o);
        // the mask under the keys of the connection that gets it
        if let Some(d) = self.r.live.get(&id) {
            let rx = refm::Rx { keys: [Some(refm::initial_keys(false, d)), None, None], largest: [None; 3] };
            refm::unprotect(&bs, &rx, &mut o);
        }
        let addr = self.clients[0].local_addr().unwrap();
        let got = call(|| interface::decode(&self.socket, &bs, addr).map(|ps| ps.iter().map(sut::got_of).collect::<Vec<_>>()));
        self.counts.push(format!("decoding: {}", got.name()));
        let ps = match &got { Out::Ok(x) => sut::gots_json(x), _ => "[]".to_string() };
        let x = Obj::new("decode").b("bs", &bs).s("out", got.name()).raw("packets", &ps).raw("o", &sut::oracle_json(&o));
        self.step(x);
    }
    fn finish(mut self, r: &mut Rng) -> (Vec<String>, Vec<String>) {
        // what is still in the network is dealt with before the last connection is opened
        if !self.ended && !self.r.net.is_empty() {
            if !self.r.can_open() {
                let bs = datagram(r, &self, "initial", 0, "exact");
                self.send(r, bs);
            }
            while !self.ended && self.r.can_open() {
                self.accept(&[], true);
            }
        }
        if !self.ended {
            let ids: Vec<u64> = self.r.live.keys().cloned().collect();
            for id in ids {
                if !self.ended {
                    self.drain(id);
                }
            }
        }
        for (_, h) in std::mem::take(&mut self.handles) {
            let _ = catch_unwind(AssertUnwindSafe(move || drop(h)));
        }
        (self.steps, self.counts)
    }
}

/// An id that is more than 8 bytes shows as it is
fn shown(key: &[u8; 20]) -> Vec<u8> {
    if key[..12].iter().all(|x| *x == 0) { key[12..].to_vec() } else { key.to_vec() }
}

fn number(key: &[u8; 20]) -> u64 {
    let mut x = [0; 8];
    x.copy_from_slice(&key[12..]);
    u64::from_be_bytes(x)
}

/// Id and entry of a connection in the table
fn entry(c: &interface::ConnectionView) -> (Vec<u8>, String) {
    let id = shown(&c.key);
    let scid = match &c.scid { Some((v, n)) => id20(v, *n), None => vec![] };
    let o = Obj::raw_obj().b("id", &id).b("scid", &scid).raw("local", &material(&c.local)).raw("remote", &material(&c.remote));
    let json = o.done().replacen("\"_\":0,", "", 1);
    (id, json)
}

/// An Initial packet as the client of a connection first addressed to dcid protects it
fn initial(r: &mut Rng, keys_of: &[u8], dcid: Vec<u8>, max: usize, o: &mut Oracle) -> Vec<u8> {
    let n = r.range(1, 4) as usize;
    let mut fs: Vec<Rec> = vec![Rec::new("padding", vec![]); 4];
    let k = if max > 1000 { max } else { r.len(max) };
    fs.push(refm::crypto(r.below(3), r.bytes(k)));
    let pt = refm::put_frames(&fs, false, &mut |x| refm::vi_len(x));
    let token = if r.chance(1, 4) { let k = r.len(20); r.blob(k) } else { vec![] };
    let x = Plain { kind: "initial", bits: 0, version: 1, dcid, scid: gen::id(r, 20), token, pn: r.below(200), n, pt, len_form: 2, token_form: 1 };
    refm::protect(&x, &refm::initial_keys(false, keys_of), o)
}

/// The id as it is written on the wire
fn written(r: &mut Rng, w: &World, to: usize, form: &str) -> Vec<u8> {
    if to == 0 {
        return loop {
            let v = gen::id(r, 20);
            let used = |x: &u64| v.len() == 8 && x.to_be_bytes() == v[..];
            if !w.ids.iter().any(used) {
                break v;
            }
        };
    }
    let id = w.ids[to - 1].to_be_bytes().to_vec();
    match form {
        "exact" => id,
        "seven" => if r.flag() { id[..7].to_vec() } else { id[1..].to_vec() },
        "nine" => if r.flag() { [&id[..], &[r.byte()]].concat() } else { [&[0][..], &id[..]].concat() },
        "padded" => [&vec![0; r.range(1, 12) as usize][..], &id[..]].concat(),
        "stripped" => {
            let s = strip(id.clone());
            if s.len() == 8 { id[..r.below(8) as usize].to_vec() } else { s }
        }
        x => panic!("form {}", x),
    }
}

/// Payload of the largest UDP datagram over IPv4
const LARGEST: usize = 65507;

fn datagram(r: &mut Rng, w: &World, kind: &str, to: usize, form: &str) -> Vec<u8> {
    let dcid = written(r, w, to, form);
    let size = if w.small { r.len(40) } else { match r.below(12) {
        0 => 1200,
        1 => r.len(4000),
        2 => *r.pick(&[1400, 1452, 1472, 1500, 2000, 2047, 2048, 2049, 4096, 9000]),
        3 if r.chance(1, 3) => r.range(4000, 65400) as usize,
        3 if r.chance(1, 2) => *r.pick(&[16384, 32768, 65400, LARGEST]),
        _ => r.len(60),
    } };
    let scid = gen::id(r, 20);
    let long = |r: &mut Rng, ty: u8, version: u32, dcid: &[u8], scid: &[u8]| {
        let mut v = vec![0xc0 | ty << 4 | r.byte() & 0x0f];
        v.extend(&version.to_be_bytes());
        v.push(dcid.len() as u8);
        v.extend(dcid);
        v.push(scid.len() as u8);
        v.extend(scid);
        let n = size + 20;
        v.extend(r.blob(n));
        v.truncate(LARGEST);
        v
    };
    match kind {
        "initial" => {
            let mut o = Oracle::default();
            let mut v = initial(r, &dcid.clone(), dcid, size.min(65300), &mut o);
            // other packets after the first one
            if size < 65300 && r.chance(1, 6) {
                let extra = long(r, r_type(size), 1, &[1, 2, 3], &[]);
                v.extend(extra);
            }
            v
        }
        "version" => { let ver = *r.pick(&[2, 0x6b33_43cf, 0xff00_001d, 0x0a0a_0a0a, 0xffff_ffff, 0x0100_0000, 0x8000_0001]); let ty = r.below(4) as u8; let ty = if r.flag() { 0 } else { ty }; long(r, ty, ver, &dcid, &scid) }
        "zerortt" => long(r, 1, 1, &dcid, &scid),
        "handshake" => long(r, 2, 1, &dcid, &scid),
        "retry" => long(r, 3, 1, &dcid, &scid),
        "negotiation" => { let ty = r.below(4) as u8; long(r, ty, 0, &dcid, &scid) }
        "onertt" => {
            let mut v = vec![0x40 | r.byte() & 0x3f];
            v.extend(dcid);
            let n = size + 20;
            v.extend(r.blob(n));
            v.truncate(LARGEST);
            v
        }
        "empty" => vec![],
        // a long header that ends too early, or a short one without a whole id
        "cut" => {
            let ty = r.below(4) as u8;
            let mut v = if r.flag() { long(r, ty, 1, &dcid, &scid) } else { [&[0x40 | r.byte() & 0x3f][..], &dcid[..dcid.len().min(7)]].concat() };
            let end = if v[0] & 0x80 != 0 { 7 + dcid.len() + scid.len() } else { v.len() };
            v.truncate(r.below(end as u64) as usize);
            v
        }
        // ids of impossible length, or noise that is no version 1 packet
        "junk" => match r.below(3) {
            0 => {
                let mut v = vec![0xc0 | r.byte() & 0x3f, 0, 0, 0, 1, r.range(21, 255) as u8];
                v.extend(r.blob(300));
                v
            }
            1 => {
                let mut v = vec![0xc0 | r.byte() & 0x3f, 0, 0, 0, 1, dcid.len() as u8];
                v.extend(dcid);
                v.push(r.range(21, 255) as u8);
                v.extend(r.blob(300));
                v
            }
            _ => {
                let mut v = vec![0x80 | r.byte(), r.byte() | 1];
                let n = r.len(50);
                v.extend(r.bytes(n));
                v
            }
        },
        x => panic!("kind {}", x),
    }
}

fn r_type(n: usize) -> u8 {
    (n % 4) as u8
}

/// Ids with little to tell them apart, or nothing in common
fn some_ids(r: &mut Rng) -> Vec<u64> {
    let base = match r.below(4) { 0 => 0, 1 => r.below(1000), _ => r.next() };
    let mut v: Vec<u64> = vec![];
    while v.len() < 6 {
        let x = match r.below(6) {
            0 => base,
            1 => base ^ 1 << r.below(64),
            2 => base.swap_bytes(),
            3 => *r.pick(&[0, 1, u64::MAX, 1 << 63, 0xff, 0xff00_0000_0000_0000]),
            4 => base.wrapping_add(r.below(3)),
            _ => r.next(),
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

/// A random history, with the mix of operations the property is about
fn random_ops(r: &mut Rng, w: &mut World, steps: usize) {
    let mut n = 0;
    while n < steps && !w.ended {
        n += 1;
        let live: Vec<u64> = w.r.live.keys().cloned().collect();
        match r.below(16) {
            0..=7 => {
                let kind = *r.pick(&["initial", "initial", "onertt", "onertt", "handshake", "zerortt", "version", "retry", "negotiation", "junk", "empty", "cut"]);
                let form = *r.pick(&["exact", "exact", "exact", "exact", "exact", "seven", "nine", "padded", "stripped"]);
                // mostly to connections that live, or did
                let to = if !live.is_empty() && r.chance(2, 3) {
                    let x = *r.pick(&live);
                    w.ids.iter().position(|y| *y == x).map_or(0, |k| k + 1)
                } else {
                    r.below(7) as usize
                };
                if kind == "onertt" && form != "exact" && to == 0 { continue; }
                // the same datagram twice
                let bs = if r.chance(1, 10) && !w.r.net.is_empty() { r.pick(&w.r.net).clone() } else { datagram(r, w, kind, to, form) };
                w.counts.push(format!("sent {}{}", kind, if to > 0 && form != "exact" { " to nearly an id" } else { "" }));
                w.send(r, bs);
            }
            8..=10 => {
                let free: Vec<u64> = w.ids.iter().cloned().filter(|x| !w.r.live.contains_key(x)).collect();
                if !w.r.can_open() && !w.r.net.is_empty() && r.chance(2, 3) {
                    let bs = datagram(r, w, "initial", 0, "exact");
                    w.send(r, bs);
                }
                if w.r.can_open() && !free.is_empty() {
                    let mut script = vec![];
                    if !live.is_empty() {
                        let n = if r.chance(1, 20) { r.below(300) } else { r.below(5) };
                        for _ in 0..n {
                            script.push(*r.pick(&live));
                        }
                    }
                    script.push(*r.pick(&free));
                    // also ids of the real random source
                    if r.chance(1, 10) { script.clear(); }
                    w.counts.push(format!("accepted after {} taken ids", script.len().saturating_sub(1)));
                    w.accept(&script, true);
                }
            }
            11 if r.chance(1, 60) => {
                if !w.r.can_open() {
                    w.counts.push("waited in vain".to_string());
                    w.accept(&[], false);
                }
            }
            11 | 12 => if !live.is_empty() && r.flag() { w.drain(*r.pick(&live)) },
            13 => if !live.is_empty() && r.chance(1, 2) { w.counts.push("dropped".to_string()); w.drop_connection(*r.pick(&live)) },
            _ => if !live.is_empty() || r.chance(1, 8) {
                let id = if live.is_empty() || r.chance(1, 8) { *r.pick(&w.ids) } else { *r.pick(&live) };
                w.decode(r, id)
            },
        }
    }
}

fn behaviour(r: &mut Rng, w: &mut World, ops: &[Op]) {
    for op in ops {
        if w.ended {
            return;
        }
        match op {
            Op::Send { kind, to, form } => {
                let bs = datagram(r, w, kind, *to, form);
                w.counts.push(format!("sent {}{}", kind, if *to > 0 && form != "exact" { " to nearly an id" } else { "" }));
                w.send(r, bs)
            }
            Op::Accept { script } => {
                let ids: Vec<u64> = script.iter().map(|k| w.ids[k - 1]).collect();
                if w.r.can_open() {
                    w.counts.push(format!("accepted after {} taken ids", ids.len() - 1));
                    w.accept(&ids, true)
                }
            }
            Op::Wait => if !w.r.can_open() { w.accept(&[], false) },
            Op::Drain(k) => { let id = w.ids[k - 1]; if w.r.live.contains_key(&id) { w.drain(id) } }
            Op::Drop(k) => { let id = w.ids[k - 1]; if w.r.live.contains_key(&id) { w.counts.push("dropped".to_string()); w.drop_connection(id) } }
            Op::Decode(k) => { let id = w.ids[k - 1]; w.decode(r, id) }
        }
    }
}

/// Many connections live at the same time
fn crowd(r: &mut Rng, w: &mut World, size: usize) {
    for _ in 0..size {
        if w.ended {
            return;
        }
        if r.chance(2, 3) && !w.r.live.is_empty() {
            let live: Vec<u64> = w.r.live.keys().cloned().collect();
            let mut v = vec![0x40 | r.byte() & 0x3f];
            v.extend(&r.pick(&live).to_be_bytes());
            v.extend(r.bytes(3));
            w.send(r, v);
        }
        let bs = datagram(r, w, "initial", 0, "exact");
        w.send(r, bs);
        // ids that are taken come up first
        let mut script: Vec<u64> = vec![];
        if r.chance(1, 3) {
            let live: Vec<u64> = w.r.live.keys().cloned().collect();
            for _ in 0..r.below(3) {
                if !live.is_empty() { script.push(*r.pick(&live)) }
            }
            if !script.is_empty() { script.push(r.next()) }
        }
        w.accept(&script, true);
    }
    let live: Vec<u64> = w.r.live.keys().cloned().collect();
    for id in live {
        if r.chance(1, 4) && !w.ended {
            w.drop_connection(id);
        }
    }
}

/// Nothing happens for a while
fn pause(r: &mut Rng, w: &mut World, ms: u64) {
    for _ in 0..3 {
        let bs = datagram(r, w, "initial", 0, "exact");
        w.send(r, bs);
        w.accept(&[], true);
    }
    let live: Vec<u64> = w.r.live.keys().cloned().collect();
    let send = |r: &mut Rng, w: &mut World| {
        for id in &live {
            let mut v = vec![0x40 | r.byte() & 0x3f];
            v.extend(&id.to_be_bytes());
            v.extend(r.bytes(9));
            w.send(r, v);
        }
    };
    send(r, w);
    std::thread::sleep(Duration::from_millis(ms));
    send(r, w);
    let bs = datagram(r, w, "initial", 0, "exact");
    w.send(r, bs);
    w.accept(&[], true);
    for id in live {
        if !w.ended {
            w.decode(r, id);
        }
    }
}

/// As many useless datagrams as fit into the network before one that is not
fn noise(r: &mut Rng, w: &mut World) {
    for k in 0..4 {
        let bs = datagram(r, w, "initial", 0, "exact");
        w.send(r, bs);
        w.accept(&[], true);
        if w.ended {
            return;
        }
        let one = *r.pick(&["junk", "empty", "cut", "version", "negotiation", "zerortt", "handshake", "retry"]);
        for _ in 0..60 {
            let kind = if k % 2 == 0 { one } else { *r.pick(&["junk", "empty", "cut", "version", "negotiation", "zerortt", "handshake", "retry", "onertt"]) };
            let bs = datagram(r, w, kind, 0, "exact");
            w.send(r, bs);
        }
    }
}

/// How many bytes wait in the receive buffer of the socket at a port
fn waiting(port: u16) -> Option<usize> {
    let mut n = None;
    for f in ["/proc/net/udp", "/proc/net/udp6"] {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() > 4 && w[1].ends_with(&format!(":{:04X}", port)) {
                let q = w[4].split(':').nth(1).and_then(|x| usize::from_str_radix(x, 16).ok())?;
                n = Some(n.unwrap_or(0) + q);
            }
        }
    }
    n
}

/// Far more useless datagrams, while somebody waits, than fit into the network at once
fn flood(r: &mut Rng, w: &mut World, size: usize) {
    let bs = datagram(r, w, "initial", 0, "exact");
    w.send(r, bs);
    w.accept(&[], true);
    let port = interface::local_addr(&w.socket).port();
    if w.ended || waiting(port).is_none() {
        return;
    }
    let one = if r.flag() { Some(*r.pick(&["junk", "empty", "cut", "version", "negotiation", "zerortt", "handshake", "retry"])) } else { None };
    let mut all = vec![];
    for _ in 0..size {
        let kind = one.unwrap_or_else(|| *r.pick(&["junk", "empty", "cut", "version", "negotiation", "zerortt", "handshake", "retry", "onertt"]));
        let mut bs = datagram(r, w, kind, 0, "exact");
        bs.truncate(24);
        if w.r.fresh(&bs).is_none() && w.r.target(&bs).map_or(true, |x| !w.r.live.contains_key(&x)) {
            all.push(bs);
        }
    }
    all.push(datagram(r, w, "initial", 0, "exact"));
    let c = w.clients[0].try_clone().unwrap();
    let from = c.local_addr().unwrap().to_string();
    for bs in &all {
        let o = Obj::new("send").b("bs", bs).s("from", &from);
        w.step(o);
        w.r.net.push(bs.clone());
    }
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stop = over.clone();
    let t = std::thread::spawn(move || {
        pin();
        for (k, bs) in all.iter().enumerate() {
            while k % 16 == 0 && waiting(port).unwrap_or(0) > 40_000 {
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                std::thread::sleep(Duration::from_micros(50));
            }
            let _ = c.send(bs);
        }
    });
    w.accept(&[], true);
    over.store(true, Ordering::SeqCst);
    let _ = t.join();
    w.counts.push(format!("flood of about {} datagrams", size));
}

/// A long backlog: many datagrams wait for a connection before its user looks
fn backlog(r: &mut Rng, w: &mut World, size: usize) {
    let open = |r: &mut Rng, w: &mut World| -> Option<u64> {
        let before: Vec<u64> = w.r.live.keys().cloned().collect();
        let bs = datagram(r, w, "initial", 0, "exact");
        w.send(r, bs);
        w.accept(&[], true);
        w.r.live.keys().cloned().find(|x| !before.contains(x))
    };
    let a = match open(r, w) { Some(x) => x, None => return };
    let b = match open(r, w) { Some(x) => x, None => return };
    let mut n = 0;
    while n < size && !w.ended {
        for _ in 0..50 {
            let to = if r.chance(1, 40) { b } else { a };
            let mut v = vec![0x40 | r.byte() & 0x3f];
            v.extend(&to.to_be_bytes());
            v.extend(r.bytes(3));
            w.send(r, v);
            n += 1;
        }
        if let Some(x) = open(r, w) {
            w.drop_connection(x);
        }
    }
    w.counts.push(format!("backlog of about {} datagrams", size));
}

/// One history: a behaviour of the specification when there is one, otherwise random
pub fn case(i: u64, r: &mut Rng, b: &mut Batch, given: &[String]) {
    if given.get(i as usize).is_none() && i % 256 == 252 {
        // with a stack that a function that calls itself for each datagram uses up
        std::thread::scope(|s| {
            let t = std::thread::Builder::new().stack_size(768 << 10).spawn_scoped(s, || case_here(i, r, b, given)).unwrap();
            let _ = t.join();
        });
    } else {
        case_here(i, r, b, given)
    }
}

fn case_here(i: u64, r: &mut Rng, b: &mut Batch, given: &[String]) {
    if STUCK.load(Ordering::SeqCst) > 12 {
        return;
    }
    pin();
    let ids = some_ids(r);
    let mut w = match World::new(r, ids, i % 4 != 0) { Some(w) => w, None => return };
    match given.get(i as usize) {
        Some(l) => {
            behaviour(r, &mut w, &ops_of(l));
            b.count("behaviours of the specification");
        }
        None if i % 256 == 250 => {
            pause(r, &mut w, if i % 2048 == 1274 { 35_000 } else { 2500 });
            b.count("pauses");
        }
        None if i % 256 == 251 => {
            w.brief = true;
            crowd(r, &mut w, if i % 2048 == 1275 { 2100 } else { 1100 });
            b.count("very many connections");
        }
        None if i % 256 == 252 => {
            flood(r, &mut w, if i < 1000 { 1500 } else { 4000 });
            b.count("floods");
        }
        None if i % 256 == 253 => {
            crowd(r, &mut w, 90);
            b.count("many connections");
        }
        None if i % 256 == 254 => {
            noise(r, &mut w);
            b.count("much noise");
        }
        None if i % 256 == 255 => {
            backlog(r, &mut w, 1400);
            b.count("long backlogs");
        }
        None => {
            let n = r.range(10, 40) as usize;
            random_ops(r, &mut w, n);
            b.count("random histories");
        }
    }
    let (steps, counts) = w.finish(r);
    for c in counts {
        b.count(&c);
    }
    if !steps.is_empty() {
        b.lines.push(format!("{{\"steps\":[{}]}}", steps.join(",")));
    }
}

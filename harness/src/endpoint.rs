//! Histories of four real connections, two pairs, on bytes (C22): keys come and go, packets are
//! built by the library and by the reference, coalesced, harmed and read by any of them, and
//! read again.  The specification follows the state of the connections by itself.
use crate::gen;
use crate::out::{self, call, Batch, Obj, Out};
use crate::refm::{self, Oracle, Plain, Space};
use crate::rng::Rng;
use crate::stateful::{given_ops, history, space_of, step, Built};
use crate::sut::{self, pns, End};
use quic_sea::verif::{self, Connection, Rec};
use serde_json::Value;

struct Conn {
    e: End,
    c: Connection,
    rx: refm::Rx,
    tx: [Option<refm::Keys>; 3],
    /// last number seen to be handed out
    last: [Option<u64>; 3],
}

struct World {
    conns: Vec<Conn>,
    o: Oracle,
    /// packets made so far
    made: Vec<Vec<u8>>,
    /// per pair, space (Handshake, application) and generation: secrets of client and server
    secrets: Vec<Vec<Vec<(Vec<u8>, Vec<u8>)>>>,
    steps: Vec<String>,
    recent: Vec<(usize, Vec<u8>)>,
}

fn opt(v: Option<u64>) -> String {
    out::opt_u64(v)
}

fn key_opt(k: &Option<refm::Keys>) -> String {
    k.as_ref().map_or("[]".to_string(), |k| format!("[{}]", sut::keys_json(k)))
}

impl World {
    fn on(&self, op: &str, c: usize) -> Obj {
        step(op).n("conn", c + 1)
    }
    fn install(&mut self, c: usize, s: Space, local: usize, remote: usize) {
        if s == Space::Initial { return; }
        let pair = &self.secrets[c / 2][s.idx() - 1];
        let server = self.conns[c].e.server;
        let pick = |g: usize, server: bool| if g == 0 { None } else { Some(if server { pair[g - 1].1.clone() } else { pair[g - 1].0.clone() }) };
        let (l, m) = (pick(local, server), pick(remote, !server));
        let mk = |x: &Option<Vec<u8>>| x.as_ref().and_then(|x| call(|| verif::secrets::from_secret(x)).ok());
        let x = &mut self.conns[c];
        x.c.verif_install(pns(s), mk(&l), mk(&m));
        x.tx[s.idx()] = l.map(|x| refm::secret_keys(&x));
        x.rx.keys[s.idx()] = m.map(|x| refm::secret_keys(&x));
        let line = step("install").n("conn", c + 1).s("space", s.name()).raw("local", &key_opt(&x.tx[s.idx()])).raw("remote", &key_opt(&x.rx.keys[s.idx()])).done();
        self.steps.push(line);
    }
    fn received(&mut self, c: usize, s: Space, v: Option<u64>) {
        self.conns[c].c.verif_set_largest_received(pns(s), v);
        self.conns[c].rx.largest[s.idx()] = v;
        self.steps.push(self.on("received", c).s("space", s.name()).raw("pn", &opt(v)).done());
    }
    fn acked(&mut self, c: usize, s: Space, v: Option<u64>) {
        self.conns[c].c.verif_set_largest_acked(pns(s), v);
        self.conns[c].e.acked[s.idx()] = v;
        self.steps.push(self.on("acked", c).s("space", s.name()).raw("pn", &opt(v)).done());
    }
    fn skip(&mut self, c: usize, s: Space, v: u64) {
        sut::set_last(&mut self.conns[c].c, s, v);
        self.conns[c].last[s.idx()] = Some(v);
        self.steps.push(self.on("skip", c).s("space", s.name()).u("pn", v).done());
    }
    fn recv(&mut self, c: usize, bs: &[u8], b: &mut Batch) {
        let x = &self.conns[c];
        let want = refm::unprotect(bs, &x.rx, &mut self.o);
        let o = sut::decode(&x.c, bs);
        b.count(match (&want, &o) { (Some(_), Out::Ok(_)) => "datagrams read", (None, Out::Err) => "datagrams refused", _ => "datagrams read otherwise" });
        let outn = o.name();
        let packets = sut::gots_json(&o.ok().unwrap_or_default());
        self.steps.push(self.on("recv", c).b("bs", bs).s("out", outn).raw("packets", &packets).done());
        self.recent.push((c, bs.to_vec()));
    }
    /// between: a datagram that is read between building and serializing
    fn send(&mut self, c: usize, kind: &'static str, fs: &[Rec], token: Vec<u8>, between: Option<(usize, Vec<u8>)>, b: &mut Batch) {
        let s = Space::of(kind);
        let p = Built::with_token(kind, fs, &token, &mut self.conns[c].c);
        if let Some((d, bs)) = between {
            self.recv(d, &bs, b);
        }
        let o = match p {
            Out::Ok(p) => {
                self.conns[c].last[s.idx()] = Some(p.view().packet_number);
                p.serialize(&self.conns[c].c)
            }
            Out::Err => Out::Err,
            Out::Panic => Out::Panic,
        };
        b.count(&format!("sent {}", o.name()));
        let outn = o.name();
        let bs = o.ok().unwrap_or_default();
        let x = &self.conns[c];
        let mut peer = refm::Rx { keys: [None, None, None], largest: [None; 3] };
        peer.keys[s.idx()] = x.tx[s.idx()].clone();
        peer.largest[s.idx()] = x.e.acked[s.idx()];
        let _ = refm::unprotect(&bs, &peer, &mut self.o);
        self.steps.push(self.on("send", c).s("kind", kind).b("token", &token).raw("frames", &out::recs(fs)).s("out", outn).b("bs", &bs).done());
        self.made.push(bs);
    }
    /// The reference seals a packet for c, with the key c has, or that of generation gen
    fn peer(&mut self, c: usize, kind: &'static str, gen: usize, r: &mut Rng) {
        let s = Space::of(kind);
        let x = &self.conns[c];
        let k = match s {
            _ if gen == 0 && x.rx.keys[s.idx()].is_some() => x.rx.keys[s.idx()].clone().unwrap(),
            Space::Initial => refm::initial_keys(!x.e.server, &x.e.dcid),
            _ => {
                let p = &self.secrets[c / 2][s.idx() - 1][gen.max(1) - 1];
                refm::secret_keys(if x.e.server { &p.0 } else { &p.1 })
            }
        };
        let (pn, n) = gen::pn_for(r, x.rx.largest[s.idx()]);
        let fs = small_frames(r, kind);
        let pt = refm::put_frames(&fs, r.flag(), &mut refm::vi_len);
        let dcid = if kind == "onertt" { r.bytes(8) } else { gen::id(r, 20) };
        let token = if kind == "initial" && r.flag() { let n = r.range(0, 9) as usize; r.bytes(n) } else { vec![] };
        let p = Plain { kind, bits: 0, version: 1, dcid, scid: gen::id(r, 20), token, pn, n, pt, len_form: gen::forms(r), token_form: 1 };
        let bs = refm::protect(&p, &k, &mut self.o);
        self.made.push(bs);
    }
}

/// Frames that any packet may carry and no receiver may refuse, at least five bytes of them
fn small_frames(r: &mut Rng, kind: &str) -> Vec<Rec> {
    let mut v = vec![Rec::new("ping", vec![])];
    if kind != "zerortt" && r.flag() {
        let n = r.range(1, 12) as usize;
        let (off, data) = (r.below(300), r.bytes(n));
        v.push(refm::crypto(off, data));
    }
    if matches!(kind, "zerortt" | "onertt") && r.flag() {
        let n = r.range(1, 12) as usize;
        let (id, off, data) = (r.below(9), r.below(99), r.bytes(n));
        v.push(refm::stream(id, off, data, false));
        return [vec![Rec::new("padding", vec![]); 3], v].concat();
    }
    let n = r.range(4, 9);
    v.extend((0..n).map(|_| Rec::new("padding", vec![])));
    v
}

fn harm(bs: &mut Vec<u8>, what: &str, r: &mut Rng) {
    if bs.is_empty() { return; }
    let n = bs.len() as u64;
    match what {
        "bit" => { let k = r.below(n) as usize; bs[k] ^= 1 << r.below(8); }
        "cut" => { let k = r.below(n) as usize; bs.truncate(k); }
        "tail" => { let k = r.range(1, 30) as usize; let t = r.bytes(k); bs.extend(t); }
        // another long type: the bits of the type are not protected
        "type" => { if bs[0] & 0x80 != 0 { bs[0] ^= (r.range(1, 3) as u8) << 4; } }
        "first" => { bs[0] ^= 1 << r.below(8); }
        _ => {}
    }
}

pub fn case(i: u64, r: &mut Rng, b: &mut Batch, given: &[String]) {
    let script = given_ops(given, i);
    let mut w = World { conns: vec![], o: Oracle::default(), made: vec![], secrets: vec![], steps: vec![], recent: vec![] };
    let mut heads = vec![];
    let shared = gen::id(r, 20);
    for pair in 0..2 {
        // now and then two connections were opened with the same id
        let dcid = if pair == 1 && r.chance(1, 6) { shared.clone() } else if pair == 0 { shared.clone() } else { gen::id(r, 20) };
        w.secrets.push((0..2).map(|_| (0..3).map(|_| (r.bytes(32), r.bytes(32))).collect()).collect());
        for server in [false, true] {
            let mut e = End::new(server, &dcid);
            e.scid = Some(gen::id(r, 20));
            let c = match e.connection() { Some(c) => c, None => return };
            let tx = [Some(refm::initial_keys(server, &dcid)), None, None];
            let rx = refm::Rx { keys: [Some(refm::initial_keys(!server, &dcid)), None, None], largest: [None; 3] };
            heads.push(format!("{{\"dcid\":{},\"scid\":{},\"local\":{},\"remote\":{}}}", out::bytes(&dcid), out::bytes(e.scid.as_ref().unwrap()),
                sut::keys_json(tx[0].as_ref().unwrap()), sut::keys_json(rx.keys[0].as_ref().unwrap())));
            w.conns.push(Conn { e, c, rx, tx, last: [None; 3] });
        }
    }
    let len = script.as_ref().map_or(if i % 400 == 399 { 220 } else { r.range(15, 45) as usize }, |s| s.len());
    for j in 0..len {
        let o: Value = match &script {
            Some(s) => s[j].clone(),
            None => random_op(j, w.made.len() as u64, r),
        };
        let n = |f: &str| o[f].as_u64().unwrap_or(0) as usize;
        let c = n("conn") - 1;
        let op = o["op"].as_str().unwrap();
        match op {
            "install" => {
                let g = n("gen");
                // now and then only one direction, or two generations
                let (l, m) = match r.below(8) { 0 => (0, g), 1 => (g, 0), 2 => (g, r.range(0, 3) as usize), _ => (g, g) };
                w.install(c, space_of(o["space"].as_str().unwrap()), l, m);
            }
            "received" | "acked" | "skip" => {
                let s = space_of(o["space"].as_str().unwrap());
                let far = match n("far") { 1 => 0, 2 => 1, 3 => r.range(2, 300), 4 => r.range(300, 70000), 5 => r.range(1 << 20, 1 << 33), _ => r.range(0, 3) };
                match op {
                    // what the other end has sent, or a little more
                    "received" => { let base = w.conns[c ^ 1].last[s.idx()].unwrap_or(0); let v = if n("far") == 6 && r.flag() { None } else { Some((base + far).min((1 << 62) - 1)) }; w.received(c, s, v) }
                    "acked" => { let v = w.conns[c].last[s.idx()].map(|x| x.saturating_sub(far)); w.acked(c, s, v) }
                    _ => { let v = w.conns[c].last[s.idx()].unwrap_or(0).saturating_add(far + 1).min(1 << 61); w.skip(c, s, v) }
                }
            }
            "send" => {
                let kind = if o["kind"] == "initial" { "initial" } else { "handshake" };
                let fs = small_frames(r, kind);
                let token = if kind == "initial" && r.flag() { let n = r.range(1, 9) as usize; r.bytes(n) } else { vec![] };
                let between = if r.chance(1, 4) && !w.recent.is_empty() { Some(r.pick(&w.recent).clone()) } else { None };
                w.send(c, kind, &fs, token, between, b);
            }
            "peer" => {
                let kind = *gen::PROTECTED.iter().find(|x| **x == o["kind"]).unwrap();
                w.peer(c, kind, n("gen"), r);
            }
            _ => {
                let mut bs = vec![];
                for p in o["packets"].as_array().unwrap() {
                    if let Some(x) = w.made.get(p.as_u64().unwrap() as usize - 1) { bs.extend(x); }
                }
                harm(&mut bs, o["harm"].as_str().unwrap(), r);
                for _ in 0..n("times") {
                    w.recv(c, &bs, b);
                }
                if !w.recent.is_empty() && r.chance(1, 3) {
                    // an old one once more, at the same place or another one
                    let (d, old) = r.pick(&w.recent).clone();
                    let d = if r.chance(1, 3) { r.below(4) as usize } else { d };
                    w.recv(d, &old, b);
                }
            }
        }
        b.count(op);
    }
    b.count(if script.is_some() { "behaviours of the specification" } else { "random histories" });
    let extra = format!("\"conns\":[{}],\"o\":{},", heads.join(","), sut::oracle_json(&w.o));
    history(b, &extra, w.steps);
}

fn random_op(j: usize, made: u64, r: &mut Rng) -> Value {
    let c = r.range(1, 4);
    let what = r.below(20);
    if what < 3 || (j < 6 && what < 12) {
        return serde_json::json!({"op": "install", "conn": c, "space": r.pick(&["handshake", "app"]), "gen": r.below(4)});
    }
    if what < 5 {
        return serde_json::json!({"op": r.pick(&["received", "acked", "skip"]), "conn": c, "space": r.pick(&["initial", "handshake", "app"]), "far": r.range(1, 6)});
    }
    if what < 9 || made == 0 {
        return serde_json::json!({"op": "send", "conn": c, "kind": r.pick(&["initial", "handshake"])});
    }
    if what < 12 {
        return serde_json::json!({"op": "peer", "conn": c, "kind": r.pick(&gen::PROTECTED), "gen": r.below(4)});
    }
    let k = r.range(1, 3).min(made);
    let packets: Vec<u64> = (0..k).map(|_| r.range(1, made)).collect();
    let harm = if r.chance(1, 2) { "none" } else { *r.pick(&["bit", "bit", "cut", "tail", "type", "first"]) };
    serde_json::json!({"op": "recv", "conn": c, "packets": packets, "harm": harm, "times": r.range(1, 2)})
}

//! Payloads, byte strings, numbers and parameters that TLC enumerated from the specification,
//! with their meaning: run on the code, and compared with that meaning.  What differs goes to
//! the judge.
use crate::out::{self, call, Batch, Obj, Out};
use crate::sut::{self, pns, End};
use crate::refm::{self, Oracle, Plain, Space};
use crate::stateless;
use quic_sea::verif::{self, PacketHandshake, PacketInitial, Rec, Val};
use serde_json::Value;

fn octets(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

fn number(v: &Value) -> u64 {
    octets(v).iter().fold(0, |a, b| a << 8 | *b as u64)
}

fn json(s: &str) -> Value {
    serde_json::from_str(s).unwrap()
}

/// A frame or parameter of the specification as record
fn rec(v: &Value) -> Rec {
    let o = v.as_object().unwrap();
    let kind = o["t"].as_str().unwrap().to_string();
    let fields = o
        .iter()
        .filter(|(n, _)| *n != "t")
        .map(|(n, x)| {
            let val = match (&n[..], x) {
                (_, Value::Bool(b)) => Val::F(*b),
                ("ranges", _) | ("ecn", _) | ("ftype", _) => Val::L(x.as_array().unwrap().iter().map(number).collect()),
                ("data", _) | ("cid", _) | ("token", _) | ("ip4", _) | ("ip6", _) => Val::B(octets(x)),
                _ => Val::U(number(x)),
            };
            (n.clone(), val)
        })
        .collect();
    Rec { kind, fields }
}

pub fn case(prop: &str, i: u64, b: &mut Batch, given: &[String], keep: bool) {
    let l = match given.get(i as usize) { Some(l) => json(l), None => return };
    match (prop, l["k"].as_str().unwrap()) {
        ("C01", "bytes") => integer(&l, b, keep),
        ("C02", "frames") => write(&l, b, keep),
        ("C03", "frames") => read(&octets(&l["bs"]), Some(&l["fs"]), b, keep),
        ("C03", "bytes") => read(&octets(&l["bs"]), l["frames"].get(0), b, keep),
        ("C04", "bytes") => header(&l, b, keep),
        ("C05", "number") => numbers(&l, b, keep),
        ("C25", "negotiation") => {
            let words = |v: &Value| v.as_array().unwrap().iter().map(|w| number(w) as u32).collect();
            stateless::replay_negotiation(i, &octets(&l["bs"]), l["must"].as_bool().unwrap(), l["versions"].get(0).map(words), b, keep)
        }
        ("C13", "bytes") | ("C14", "bytes") => {
            let bs = octets(&l["bs"]);
            for what in ["header", "frames", "integer", "datagram"] { anything(prop, what, &receiver(), &bs, b, keep) }
        }
        ("C13", "channel") | ("C14", "channel") => {
            let e = receiver();
            let (bs, _) = datagram(&l, &e, &mut Oracle::default());
            anything(prop, "datagram", &e, &bs, b, keep)
        }
        ("C07", "send") => send(&l, b, keep),
        ("C10", "schedule") => {
            let id = octets(&l["id"]);
            for server in [true, false] { stateless::initial_keys(server, &id, b, keep) }
            for x in octets(&l["secret"]) { stateless::secret_keys(&[&[x; 31][..], &[id.len() as u8]].concat(), b, keep) }
        }
        ("C11", "seal") => seals(&l, b, keep),
        ("C08", "channel") | ("C09", "channel") | ("C12", "channel") => channel(prop, &l, b, keep),
        #[cfg(not(quic_sea_verif = "no_fields"))]
        ("C23", "fields") => crate::fields::replay_fields(&l, b, keep),
        #[cfg(not(quic_sea_verif = "no_fields"))]
        ("C24", "label") => crate::fields::replay_label(i, &l, b, keep),
        #[cfg(not(quic_sea_verif = "no_params"))]
        ("C21", "params") => params(&l, b, keep),
        (p, k) => panic!("{} has no use for {}", p, k),
    }
}

fn integer(l: &Value, b: &mut Batch, keep: bool) {
    let bs = octets(&l["bs"]);
    let want = match l["int"].get(0) {
        Some(x) => Out::Ok((number(&x["x"]), x["used"].as_u64().unwrap() as usize)),
        None => Out::Err,
    };
    b.count("strings of the model read as integer");
    stateless::vi_dec_as(&bs, want, b, keep);
}

fn write(l: &Value, b: &mut Batch, keep: bool) {
    let mut fs: Vec<Rec> = l["fs"].as_array().unwrap().iter().map(rec).collect();
    // in the order in which the projections name the fields
    for (f, like) in fs.iter_mut().zip(refm::frames_of(&octets(&l["canon"])).unwrap_or_default()) {
        f.fields.sort_by_key(|x| like.fields.iter().position(|y| y.0 == x.0));
    }
    b.count("payloads of the model written");
    for (end, canon) in [(false, octets(&l["canon"])), (true, octets(&l["last"]))] {
        let differs = sut::serialize(&fs, end) != Out::Ok(canon);
        stateless::ser_as(&fs, end, differs, b, keep);
    }
}

fn read(bs: &[u8], want: Option<&Value>, b: &mut Batch, keep: bool) {
    let got = sut::parse(bs);
    b.count("strings of the model read as frames");
    let differs = match (&got, want) {
        (Out::Ok(fs), Some(w)) => json(&out::recs(fs)) != *w,
        (Out::Err, None) => false,
        _ => true,
    };
    stateless::emit(b, keep, differs, || stateless::parse_event(bs, &got));
}

fn header(l: &Value, b: &mut Batch, keep: bool) {
    let bs = octets(&l["bs"]);
    let want = l["header"].get(0).map(|x| {
        let h = &x["h"];
        let used = x["used"].as_u64().unwrap() as usize;
        let kind: &'static str = match h["type"].as_str().unwrap() {
            "vn" => "vn", "initial" => "initial", "zerortt" => "zerortt", "handshake" => "handshake", "retry" => "retry", _ => "onertt",
        };
        (refm::Header { long: h["long"].as_bool().unwrap(), b: bs[0], version: number(&h["version"]) as u32, kind,
                        dcid: octets(&h["dcid"]), scid: octets(&h["scid"]) }, used)
    });
    b.count("strings of the model read as header");
    stateless::header_as(&bs, want, b, keep);
}

fn numbers(l: &Value, b: &mut Batch, keep: bool) {
    let pn = number(&l["pn"]);
    let other = l["other"].get(0).map(number);
    let t = octets(&l["t"]);
    for s in refm::SPACES {
        let mut e = End::new(false, &[]);
        e.received[s.idx()] = other;
        if let Some(c) = e.connection() {
            let got = call(|| c.reconstruct_remote_pn(pns(s), &t));
            b.count("numbers of the model reconstructed");
            stateless::emit(b, keep, got != Out::Ok(number(&l["got"])), || stateless::recon_event(s, other, &t, &got));
        }
        // as sender of pn, with other acknowledged
        if pn > 0 && other.map_or(true, |x| x < pn) {
            let least = l["least"].as_u64().unwrap() as usize;
            let mut e = End::new(false, &[]);
            e.acked[s.idx()] = other;
            e.last_sent[s.idx()] = Some(pn - 1);
            if let Some(mut c) = e.connection() {
                let got = call(|| c.get_next_pn(pns(s)));
                b.count("numbers of the model truncated");
                let fine = match &got {
                    Out::Ok((x, t)) => *x == pn && least > 0 && t.len() >= least && t.len() <= 4 && t[..] == pn.to_be_bytes()[8 - t.len()..],
                    _ => false,
                };
                stateless::emit(b, keep, !fine, || stateless::trunc_event(s, pn, other, &got));
            }
        }
    }
}

#[cfg(not(quic_sea_verif = "no_params"))]
fn params(l: &Value, b: &mut Batch, keep: bool) {
    let ps: Vec<Rec> = l["ps"].as_array().unwrap().iter().map(rec).collect();
    b.count("parameter lists of the model written");
    let got: Out<Vec<u8>> = call(|| {
        let mut v = vec![];
        for p in &ps { v.extend(verif::transport_parameters::serialize(p)?); }
        Ok::<_, verif::Error>(v)
    });
    let differs = got != Out::Ok(octets(&l["bs"]));
    stateless::emit(b, keep, differs, || {
        Obj::new("params").raw("params", &l["ps"].to_string()).s("out", got.name()).b("bs", &got.clone().ok().unwrap_or_default()).done()
    });
}

/// Bytes of any kind: read, or refused, within bounds
fn anything(prop: &str, what: &str, e: &End, bs: &[u8], b: &mut Batch, keep: bool) {
    b.count("strings of the model read as anything");
    if prop == "C13" { stateless::total_as(what, e, bs, b, keep) } else { stateless::memory_as(what, e, bs, b, keep) }
}

/// The receiver of the model
fn receiver() -> End {
    let mut e = End::new(true, &[9, 8, 7, 6, 5, 4, 3, 2]);
    e.secrets = [Some((vec![11; 32], vec![12; 32])), Some((vec![13; 32], vec![14; 32]))];
    e.received = [None, Some(290), Some(65600)];
    e
}

/// Instructions for a datagram: packets of a peer, put together, altered, cut
fn datagram(l: &Value, e: &End, o: &mut Oracle) -> (Vec<u8>, Vec<Option<Value>>) {
    let keys = e.tx_keys(false);
    let mut bs = vec![];
    let mut sent = vec![];
    for p in l["parts"].as_array().unwrap() {
        let mut w = match p["x"].get(0) {
            None => octets(&p["raw"]),
            Some(x) => {
                let kind = stateless::kind_of(x["type"].as_str().unwrap());
                let n = |f: &str| x[f].as_u64().unwrap();
                let plain = Plain {
                    kind, bits: n("bits") as u8, version: number(&x["version"]) as u32, dcid: octets(&x["dcid"]), scid: octets(&x["scid"]),
                    token: octets(&x["token"]), pn: number(&x["pn"]), n: n("n") as usize, pt: octets(&x["pt"]),
                    len_form: n("lf") as usize, token_form: n("tf") as usize,
                };
                refm::protect(&plain, keys[Space::of(kind).idx()].as_ref().unwrap(), o)
            }
        };
        sent.push(p["x"].get(0).cloned());
        let at = p["at"].as_u64().unwrap() as usize;
        if at > 0 {
            w[at - 1] ^= p["with"].as_u64().unwrap() as u8;
        }
        w.truncate(w.len() - p["cut"].as_u64().unwrap() as usize);
        bs.extend(w);
    }
    (bs, sent)
}

fn channel(prop: &str, l: &Value, b: &mut Batch, keep: bool) {
    let e = receiver();
    let c = match e.connection() { Some(c) => c, None => return };
    let mut o = Oracle::default();
    let (bs, sent) = datagram(l, &e, &mut o);
    let ok = l["ok"].as_bool().unwrap();
    let dirty = l["dirty"].as_bool().unwrap();
    b.count(if dirty { "altered datagrams of the model" } else { "datagrams of the model" });
    b.lax = prop == "C09";
    let got = sut::decode(&c, &bs);
    let differs = match &got {
        Out::Ok(g) => {
            let want = l["got"].as_array().unwrap();
            !ok || g.len() != want.len() || !g.iter().zip(want).all(|(x, w)| {
                let w = w.as_u64().unwrap() as usize;
                if w == 0 { return x.kind == "vn" }
                let y = sent[w - 1].as_ref().unwrap();
                x.kind == y["type"].as_str().unwrap() && x.pn == number(&y["pn"]) && x.token == octets(&y["token"])
                    && x.frames == refm::frames_of(&octets(&y["pt"])).unwrap_or_default()
            })
        }
        Out::Err => ok && !b.lax,
        Out::Panic => true,
    };
    stateless::decode_as(&e, &c, &bs, &mut o, differs, !dirty && ok, b, keep);
}

/// A packet to be sent, from a position in the history of its space
fn send(l: &Value, b: &mut Batch, keep: bool) {
    let kind = stateless::kind_of(l["kind"].as_str().unwrap());
    let s = Space::of(kind);
    let pn = number(&l["pn"]);
    for server in [false, true] {
        let mut e = End::new(server, &octets(&l["dcid"]));
        e.scid = Some(octets(&l["scid"]));
        e.secrets = [Some((vec![11; 32], vec![12; 32])), Some((vec![13; 32], vec![14; 32]))];
        e.acked[s.idx()] = l["acked"].get(0).map(number);
        e.last_sent[s.idx()] = Some(pn - 1);
        // in the order in which the projections name the fields
        let fs = refm::frames_of(&octets(&l["pt"])).unwrap_or_default();
        let token = l["token"].get(0).map(octets);
        let mut c = match e.connection() { Some(c) => c, None => return };
        let got: Out<(u64, Vec<u8>)> = call(|| {
            let frames = fs.iter().map(|f| verif::frame::build(&refm::buildable(f))).collect::<Vec<_>>();
            if kind == "initial" {
                let p = PacketInitial::new(frames, token.clone(), &mut c)?;
                Ok::<_, verif::Error>((verif::packet::initial_view(&p).packet_number, verif::packet::serialize_initial(&p, &c)?))
            } else {
                let p = PacketHandshake::new(frames, &mut c)?;
                Ok((verif::packet::handshake_view(&p).packet_number, verif::packet::serialize_handshake(&p, &c)?))
            }
        });
        b.count("packets of the model sent");
        stateless::sent(kind, &e, pn, l["at"].get(0).map(number), &fs, token, &got, b, keep);
    }
}

/// Payloads sealed, and every combination of space, number, associated data and ciphertext opened
fn seals(l: &Value, b: &mut Batch, keep: bool) {
    let e = receiver();
    let (c, d) = match (e.connection(), e.other().connection()) { (Some(c), Some(d)) => (c, d), _ => return };
    let xs: Vec<_> = l["seals"].as_array().unwrap().iter().map(|x| {
        let s = refm::SPACES.into_iter().find(|s| s.name() == x["space"].as_str().unwrap()).unwrap();
        (s, number(&x["pn"]), octets(&x["aad"]), octets(&x["pt"]))
    }).collect();
    let mut o = Oracle::default();
    let keys = e.tx_keys(true);
    let cts: Vec<Vec<u8>> = xs.iter().map(|(s, pn, aad, pt)| {
        b.count("payloads of the model sealed");
        let want = stateless::seal_as(&c, &keys[s.idx()].clone().unwrap(), *s, *pn, aad, pt, &mut o, b, keep);
        want
    }).collect();
    for (s, ..) in &xs {
        for (_, pn, ..) in &xs {
            for (_, _, aad, _) in &xs {
                for (j, ct) in cts.iter().enumerate() {
                    let same = (*s, *pn, aad) == (xs[j].0, xs[j].1, &xs[j].2);
                    b.count(if same { "opened as sealed" } else { "opened otherwise" });
                    stateless::open_as("a combination of the model", &d, &keys[s.idx()].clone().unwrap(), *s, *pn, aad, ct,
                                       if same { Some(&xs[j].3) } else { None }, &o, b, keep);
                }
            }
        }
    }
}

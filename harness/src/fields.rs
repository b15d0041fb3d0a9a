//! Fields, ids and byte runs read one by one (C23), and key derivation with labels (C24).
use crate::out::{self, call, Batch, Obj, Out};
use crate::refm;
use crate::rng::Rng;
use crate::stateless::emit;
use quic_sea::verif::{self, DecodeFromBytes, Error, FromDatagram, U160};
use serde_json::Value;

#[derive(Debug, Clone)]
pub struct Field {
    what: String,
    n: usize,
}

const FIXED: [(&str, usize); 7] = [("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("u128", 16), ("u160", 20), ("dcid", 8)];

fn id20(x: U160) -> Vec<u8> {
    x.to_bytes().to_vec()
}

fn read<T: Iterator<Item = Result<u8, Error>>>(s: &mut T, f: &Field) -> Result<Vec<u8>, Error> {
    Ok(match f.what.as_str() {
        "u8" => u8::from_datagram(s)?.to_be_bytes().to_vec(),
        "u16" => u16::from_datagram(s)?.to_be_bytes().to_vec(),
        "u32" => u32::from_datagram(s)?.to_be_bytes().to_vec(),
        "u64" => u64::from_datagram(s)?.to_be_bytes().to_vec(),
        "u128" => u128::from_datagram(s)?.to_be_bytes().to_vec(),
        "u160" => id20(U160::from_datagram(s)?),
        "dcid" => id20(verif::fixed_len_dcid_from_stream(s)?),
        "varu32" => verif::var_u32_from_stream(s, f.n)?.to_be_bytes().to_vec(),
        "varu160" => id20(verif::var_u160_from_stream(s, f.n as u8)?),
        "bytes" => verif::var_bytes_from_stream(s, f.n)?,
        _ => verif::all_bytes_from_stream(s)?,
    })
}

/// Reference: the values up to the first failure, whether all are there, bytes used
fn want(bs: &[u8], bad: bool, fs: &[Field]) -> (Vec<Vec<u8>>, bool, usize) {
    let (mut v, mut p) = (vec![], 0);
    for f in fs {
        let n = match FIXED.iter().find(|x| x.0 == f.what) {
            Some(x) => x.1,
            None if f.what == "rest" => if bad { usize::MAX } else { bs.len() - p },
            None => f.n,
        };
        if n > bs.len() - p { return (v, false, p); }
        let width = match f.what.as_str() { "dcid" | "varu160" => 20, "varu32" => 4, _ => n };
        v.push([vec![0; width - n], bs[p..p + n].to_vec()].concat());
        p += n;
    }
    (v, true, p)
}

fn stream_event(bs: &[u8], bad: bool, fs: &[Field], b: &mut Batch, keep: bool) {
    let left = std::cell::Cell::new(bs.len());
    let mut got = vec![];
    // after the bytes the stream ends, or fails for ever
    let mut at = 0;
    let mut stream = std::iter::from_fn(|| {
        if at < bs.len() {
            at += 1;
            left.set(bs.len() - at);
            Some(Ok(bs[at - 1]))
        } else if bad {
            Some(Err(Error::ProtocolViolation))
        } else {
            None
        }
    });
    let o: Out<()> = call(|| {
        for f in fs {
            got.push(read(&mut stream, f)?);
        }
        Ok::<_, Error>(())
    });
    let used = bs.len() - left.get();
    let (v, all, p) = want(bs, bad, fs);
    b.count(if all { "fields read" } else { "fields that are not there" });
    let differs = match &o { Out::Ok(_) => !all || got != v || used != p, Out::Err => all || got != v, Out::Panic => true };
    emit(b, keep, differs, || {
        let fs = out::list(fs.iter().map(|f| format!("{{\"what\":\"{}\",\"n\":{}}}", f.what, f.n)));
        Obj::new("fields").raw("fs", &fs).b("bs", bs).n("bad", bad as usize).s("out", o.name())
            .raw("got", &out::list(got.iter().map(|x| out::bytes(x)))).n("used", used).done()
    });
}

fn slice_event(bs: &[u8], f: &Field, b: &mut Batch, keep: bool) {
    let o: Out<(Vec<u8>, usize)> = call(|| {
        Ok::<_, Error>(match f.what.as_str() {
            "u8" => { let (x, n) = u8::decode_from_bytes(bs)?; (x.to_be_bytes().to_vec(), n) }
            "u16" => { let (x, n) = u16::decode_from_bytes(bs)?; (x.to_be_bytes().to_vec(), n) }
            "u32" => { let (x, n) = u32::decode_from_bytes(bs)?; (x.to_be_bytes().to_vec(), n) }
            "u64" => { let (x, n) = u64::decode_from_bytes(bs)?; (x.to_be_bytes().to_vec(), n) }
            "u128" => { let (x, n) = u128::decode_from_bytes(bs)?; (x.to_be_bytes().to_vec(), n) }
            _ => verif::decode_bytes(bs, f.n)?,
        })
    });
    let (v, all, p) = want(bs, false, &[f.clone()]);
    b.count(if all { "fields of slices read" } else { "fields of slices that are not there" });
    let differs = match &o { Out::Ok((x, n)) => !all || *x != v[0] || *n != p, Out::Err => all, Out::Panic => true };
    emit(b, keep, differs, || {
        let (x, n) = o.clone().ok().unwrap_or_default();
        Obj::new("slice").raw("f", &format!("{{\"what\":\"{}\",\"n\":{}}}", f.what, f.n)).b("bs", bs).s("out", o.name()).b("v", &x).n("used", n).done()
    });
}

fn hash(x: &U160) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// id and another one, of 20 bytes each; n: a length that holds the first
fn id_event(id: &[u8], other: &[u8], n: usize, b: &mut Batch, keep: bool) {
    let o: Out<(Vec<u8>, Vec<u8>, bool)> = call(|| {
        let low: [u8; 8] = id[12..].try_into().unwrap();
        let x = if id[..12].iter().all(|x| *x == 0) && id[19] % 2 == 0 { U160::from(u64::from_be_bytes(low)) } else { verif::u160(id) };
        let y = verif::u160(other);
        // ids serve as keys of a map
        let eq = if id == other { x == y && y == x && hash(&x) == hash(&y) } else { x == y || y == x };
        Ok::<_, Error>((x.to_bytes().to_vec(), x.to_var_bytes(n), eq))
    });
    b.count("ids written");
    let differs = o != Out::Ok((id.to_vec(), id[20 - n..].to_vec(), id == other));
    emit(b, keep, differs, || {
        let (full, bs, eq) = o.clone().ok().unwrap_or_default();
        Obj::new("id").b("id", id).b("other", other).n("n", n).s("out", o.name()).b("full", &full).b("bs", &bs).f("eq", eq).done()
    });
}

pub fn c23(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    let field = |r: &mut Rng| {
        let what = match r.below(12) { k @ 0..=6 => FIXED[k as usize].0, 7 => "varu32", 8 => "varu160", 9 | 10 => "bytes", _ => "rest" };
        let n = match what { "varu32" => r.below(5), "varu160" => r.below(21), "bytes" => if r.flag() { r.below(4) } else { r.below(40) }, _ => 0 };
        Field { what: what.to_string(), n: n as usize }
    };
    match i % 4 {
        0 | 1 => {
            let n = r.range(1, 5) as usize;
            let fs: Vec<Field> = (0..n).map(|_| field(r)).collect();
            let full: usize = fs.iter().map(|f| FIXED.iter().find(|x| x.0 == f.what).map_or(f.n, |x| x.1)).sum();
            // as long as needed, a little less, a little more, or anything
            let n = match r.below(4) { 0 => full, 1 => full.saturating_sub(r.range(1, 3) as usize), 2 => full + r.below(4) as usize, _ => r.below(60) as usize };
            let bs = r.blob(n);
            let bad = r.flag();
            stream_event(&bs, bad, &fs, b, keep);
        }
        2 => {
            let mut f = field(r);
            if !matches!(f.what.as_str(), "u8" | "u16" | "u32" | "u64" | "u128") { f.what = "bytes".to_string(); }
            let need = FIXED.iter().find(|x| x.0 == f.what).map_or(f.n, |x| x.1);
            let n = match r.below(3) { 0 => need, 1 => need.saturating_sub(1), _ => r.below(24) as usize };
            let bs = r.blob(n);
            slice_event(&bs, &f, b, keep);
        }
        _ => {
            let n = ((i / 4) % 21) as usize;
            let id = [vec![0; 20 - n], r.blob(n)].concat();
            let other = match r.below(3) {
                0 => id.clone(),
                1 => { let mut x = id.clone(); let k = r.below(20) as usize; x[k] ^= 1 << r.below(8); x }
                _ => r.blob(20),
            };
            let width = r.range(n as u64, 20) as usize;
            id_event(&id, &other, width, b, keep);
        }
    }
}

pub fn replay_fields(l: &Value, b: &mut Batch, keep: bool) {
    let bytes = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    let fs: Vec<Field> = l["fs"].as_array().unwrap().iter()
        .map(|f| Field { what: f["what"].as_str().unwrap().to_string(), n: f["n"].as_u64().unwrap() as usize }).collect();
    let bs = bytes(&l["bs"]);
    let bad = l["bad"] != 0;
    // what the model says and what the reference says are the same
    let (v, all, p) = want(&bs, bad, &fs);
    let model: Vec<Vec<u8>> = l["v"].as_array().unwrap().iter().map(bytes).collect();
    let agree = model == v && l["ok"] == all && l["p"].as_u64().unwrap() as usize == p + 1;
    stream_event(&bs, bad, &fs, b, keep || !agree);
    if fs.len() == 1 && !bad && (matches!(fs[0].what.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "bytes")) {
        slice_event(&bs, &fs[0], b, keep);
    }
}

// ---------------------------------------------------------------------- C24

/// Points of HMAC that were evaluated
#[derive(Default)]
struct Points(Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>);

impl Points {
    fn hmac(&mut self, key: &[u8], data: &[u8]) -> Vec<u8> {
        let mac = refm::hmac256(key, data);
        self.0.push((key.to_vec(), data.to_vec(), mac.clone()));
        mac
    }
    fn json(&self) -> String {
        format!("{{\"hmac\":{}}}", out::list(self.0.iter().map(|(a, b, c)| format!("{{\"key\":{},\"data\":{},\"mac\":{}}}", out::bytes(a), out::bytes(b), out::bytes(c)))))
    }
}

fn expand_event(secret: &[u8], label: &[u8], context: &[u8], n: usize, b: &mut Batch, keep: bool) {
    let mut o = Points::default();
    let possible = secret.len() >= 32 && n <= 255 * 32 && label.len() <= 249 && context.len() <= 255;
    let want = if !possible { Out::Err } else {
        let info = [&(n as u16).to_be_bytes()[..], &[label.len() as u8 + 6], b"tls13 ", label, &[context.len() as u8], context].concat();
        let (mut t, mut all) = (vec![], vec![]);
        for k in 1..=(n + 31) / 32 {
            t = o.hmac(secret, &[&t[..], &info, &[k as u8]].concat());
            all.extend(&t);
        }
        all.truncate(n);
        Out::Ok(all)
    };
    let got = call(|| verif::secrets::expand_label(secret, label, context, n));
    b.count(if possible { "derivations" } else { "impossible derivations" });
    emit(b, keep, got != want, || {
        Obj::new("expand").b("secret", secret).b("label", label).b("context", context).n("n", n).raw("o", &o.json())
            .s("out", got.name()).b("v", &got.clone().ok().unwrap_or_default()).done()
    });
}

fn extract_event(salt: Option<&[u8]>, ikm: &[u8], b: &mut Batch, keep: bool) {
    let mut o = Points::default();
    let want = o.hmac(salt.unwrap_or(&[0; 32]), ikm);
    let got = call(|| Ok::<_, Error>(verif::secrets::extract(salt, ikm)));
    b.count("extractions");
    emit(b, keep, got != Out::Ok(want), || {
        let s = salt.map_or("[]".to_string(), |s| format!("[{}]", out::bytes(s)));
        Obj::new("extract").raw("salt", &s).b("ikm", ikm).raw("o", &o.json()).s("out", got.name()).b("v", &got.clone().ok().unwrap_or_default()).done()
    });
}

pub fn c24(i: u64, r: &mut Rng, b: &mut Batch, keep: bool) {
    if i % 4 == 3 {
        let n = if r.flag() { r.below(70) } else { r.below(300) } as usize;
        let salt = r.blob(n);
        let n = r.len(300);
        let ikm = r.blob(n);
        return extract_event(if r.chance(1, 4) { None } else { Some(&salt) }, &ikm, b, keep);
    }
    let ns = match r.below(8) { 0 => r.below(32), 1 => r.range(33, 200), _ => 32 } as usize;
    let secret = r.blob(ns);
    let nl = match r.below(8) { 0 => r.range(240, 260), 1 => 249, 2 => 250, _ => r.range(1, 30) } as usize;
    let label = if r.chance(1, 3) { r.pick(&[&b"quic key"[..], b"quic iv", b"quic hp", b"quic ku", b"c hs traffic", b"derived"]).to_vec() } else { r.blob(nl) };
    let nc = match r.below(8) { 0 => r.range(250, 260), 1 => 255, 2 => 256, 3 => 32, _ => r.below(40) } as usize;
    let context = if r.flag() { vec![] } else { r.blob(nc) };
    let n = match r.below(16) { 0 => r.range(8150, 8170), 1 => r.range(65530, 65560), 2 => 8160, 3 => 8161, 4 => r.range(250, 260), 5 => r.below(600), _ => *r.pick(&[12, 16, 31, 32, 33, 48, 64, 65]) } as usize;
    // the judge takes long for hundreds of blocks
    let keep = keep && (n <= 320 || n > 8160 || i % 16 == 0);
    expand_event(&secret, &label, &context, n, b, keep)
}

pub fn replay_label(i: u64, l: &Value, b: &mut Batch, keep: bool) {
    let bytes = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    let secret: Vec<u8> = (0..32).map(|k| (i as u8).wrapping_mul(31).wrapping_add(k)).collect();
    expand_event(&secret, &bytes(&l["label"]), &bytes(&l["context"]), l["n"].as_u64().unwrap() as usize, b, keep);
}

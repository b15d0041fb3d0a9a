//! Events as JSON lines, counters, and the calls on the code under test.
use quic_sea::verif::{Rec, Val};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out<T> {
    Ok(T),
    Err,
    Panic,
}

impl<T> Out<T> {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err => "err",
            Out::Panic => "panic",
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn as_ref(&self) -> Out<&T> {
        match self {
            Out::Ok(x) => Out::Ok(x),
            Out::Err => Out::Err,
            Out::Panic => Out::Panic,
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err => Out::Err,
            Out::Panic => Out::Panic,
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(x) => Some(x),
            _ => None,
        }
    }
}

/// Calls the code under test
pub fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(_)) => Out::Err,
        Err(_) => Out::Panic,
    }
}

/// Incremental JSON object
pub struct Obj(pub String);

impl Obj {
    pub fn new(k: &str) -> Self {
        Obj(format!("{{\"k\":\"{}\"", k))
    }
    pub fn raw_obj() -> Self {
        Obj("{\"_\":0".to_string())
    }
    pub fn raw(mut self, name: &str, v: &str) -> Self {
        let _ = write!(self.0, ",\"{}\":{}", name, v);
        self
    }
    pub fn s(self, name: &str, v: &str) -> Self {
        self.raw(name, &format!("\"{}\"", v))
    }
    pub fn b(self, name: &str, v: &[u8]) -> Self {
        self.raw(name, &bytes(v))
    }
    pub fn u(self, name: &str, v: u64) -> Self {
        self.raw(name, &bytes(&v.to_be_bytes()))
    }
    pub fn ou(self, name: &str, v: Option<u64>) -> Self {
        self.raw(name, &opt_u64(v))
    }
    pub fn n(self, name: &str, v: usize) -> Self {
        self.raw(name, &v.to_string())
    }
    pub fn f(self, name: &str, v: bool) -> Self {
        self.raw(name, if v { "true" } else { "false" })
    }
    pub fn done(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

pub fn bytes(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    s
}

pub fn opt_u64(v: Option<u64>) -> String {
    match v {
        Some(x) => format!("[{}]", bytes(&x.to_be_bytes())),
        None => "[]".to_string(),
    }
}

pub fn list(xs: impl Iterator<Item = String>) -> String {
    format!("[{}]", xs.collect::<Vec<_>>().join(","))
}

/// Frame or parameter as the specification writes it
pub fn rec(r: &Rec) -> String {
    let mut s = format!("{{\"t\":\"{}\"", r.kind);
    for (name, v) in &r.fields {
        let j = match v {
            Val::U(x) => bytes(&x.to_be_bytes()),
            Val::B(x) => bytes(x),
            Val::F(x) => x.to_string(),
            Val::L(x) => list(x.iter().map(|y| bytes(&y.to_be_bytes()))),
        };
        let _ = write!(s, ",\"{}\":{}", name, j);
    }
    s.push('}');
    s
}

pub fn recs(rs: &[Rec]) -> String {
    list(rs.iter().map(rec))
}

fn stamped(l: &str, case: u64) -> String {
    format!("{{\"case\":{},{}", case, &l[1..])
}

#[derive(Default)]
pub struct Batch {
    /// events for the judge
    pub lines: Vec<String>,
    /// what was covered
    pub counts: BTreeMap<String, u64>,
    /// cases the native reference found worth a look
    pub suspicious: u64,
    /// events of those, the first ones and the shortest ones
    first: Vec<String>,
    /// the case being run
    pub case: u64,
    shortest: Vec<String>,
    /// refusing is never a fault in this mode
    pub lax: bool,
    /// all events are wanted
    pub force: bool,
}

impl Batch {
    /// An event that the native reference found worth a look
    pub fn suspect(&mut self, event: impl FnOnce() -> String) {
        self.suspicious += 1;
        if self.suspicious > 20_000 {
            return;
        }
        let e = stamped(&event(), self.case);
        if self.first.len() < 10 {
            self.first.push(e);
        } else {
            self.shortest.push(e);
            if self.shortest.len() >= 200 {
                self.shortest.sort_by_key(|x| x.len());
                self.shortest.truncate(60);
            }
        }
    }
    /// Those to be judged: not more than the judge can take, whatever their size
    pub fn pick_suspects(&mut self) {
        self.first.sort_by_key(|x| x.len());
        self.shortest.sort_by_key(|x| x.len());
        let mut room = 400_000i64;
        for l in self.shortest.drain(..).take(60).chain(self.first.drain(..)) {
            if room > 0 {
                room -= l.len() as i64;
                self.lines.push(l);
            }
        }
    }
    pub fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_string()).or_insert(0) += n;
    }
    /// Notes which case the events since the given one came from
    pub fn stamp(&mut self, from: usize, case: u64) {
        for l in &mut self.lines[from..] {
            *l = stamped(l, case);
        }
    }
    pub fn merge(&mut self, other: Batch) {
        self.lines.extend(other.lines);
        self.first.extend(other.first);
        self.shortest.extend(other.shortest);
        self.suspicious += other.suspicious;
        for (k, v) in other.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
    }
}

mod alloc;
mod endpoint;
#[cfg(not(quic_sea_verif = "no_fields"))]
mod fields;
mod gen;
mod out;
mod refm;
mod replay;
mod rng;
#[cfg(not(quic_sea_verif = "no_routing"))]
mod routing;
mod stateless;
mod stateful;
mod sut;

use out::Batch;
use rng::Rng;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

struct Args {
    mode: String,
    seed: u64,
    cases: u64,
    keep: u64,
    threads: usize,
    only: Option<u64>,
    out: String,
    log: Option<String>,
    hang: u64,
    input: Option<String>,
}

fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let num = |n: &str, d: u64| get(n).map_or(d, |x| x.parse().unwrap());
    Args {
        mode: a[1].clone(),
        seed: num("--seed", 1),
        cases: num("--cases", 1000),
        keep: num("--keep", 1000),
        threads: num("--threads", 8) as usize,
        only: get("--only").map(|x| x.parse().unwrap()),
        out: get("--out").expect("--out"),
        log: get("--log"),
        hang: num("--hang", 60),
        input: get("--in"),
    }
}

type Case = fn(u64, &mut Rng, &mut Batch, bool);

fn case_of(mode: &str) -> Option<Case> {
    Some(match mode {
        "C01" => stateless::c01,
        "C02" => stateless::c02,
        #[cfg(not(quic_sea_verif = "no_fields"))]
        "C23" => fields::c23,
        "C25" => stateless::c25,
        #[cfg(not(quic_sea_verif = "no_fields"))]
        "C24" => fields::c24,
        "C03" => stateless::c03,
        "C04" => stateless::c04,
        "C05" => stateless::c05,
        "C07" => stateless::c07,
        "C08" => stateless::c08,
        "C09" => stateless::c09,
        "C10" => stateless::c10,
        "C11" => stateless::c11,
        "C12" => stateless::c12,
        "C13" => stateless::c13,
        "C14" => stateless::c14,
        #[cfg(not(quic_sea_verif = "no_params"))]
        "C21" => stateless::c21,
        _ => return None,
    })
}

fn seed_of(mode: &str, seed: u64) -> u64 {
    mode.bytes().fold(seed ^ 0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// What a thread gets by default
const STACK: usize = 2 << 20;

fn main() {
    let a = args();
    std::panic::set_hook(Box::new(|_| {}));
    let given: Vec<String> = match &a.input {
        Some(f) => std::fs::read_to_string(f).unwrap().lines().map(|x| x.to_string()).collect(),
        None => vec![],
    };
    let f: Box<dyn Fn(u64, &mut Rng, &mut Batch, bool) + Sync> = match (case_of(&a.mode), a.mode.as_str()) {
        (Some(f), _) => Box::new(f),
        #[cfg(not(quic_sea_verif = "no_routing"))]
        (None, "C15") | (None, "C16") | (None, "C17") | (None, "C18") => Box::new(move |i, r: &mut Rng, b: &mut Batch, _| routing::case(i, r, b, &given)),
        (None, "C05L") => Box::new(move |i, r: &mut Rng, b: &mut Batch, _| stateful::link(i, r, b, &given)),
        (None, "C06") => Box::new(move |i, r: &mut Rng, b: &mut Batch, _| stateful::spaces(i, r, b, &given)),
        (None, "C19") => Box::new(move |i, r: &mut Rng, b: &mut Batch, _| stateful::keys(i, r, b, &given)),
        (None, "C22") => Box::new(move |i, r: &mut Rng, b: &mut Batch, _| endpoint::case(i, r, b, &given)),
        (None, "C20") => Box::new(move |i, r: &mut Rng, b: &mut Batch, keep| stateful::header(i, r, b, &given, keep)),
        (None, m) if m.ends_with('R') => {
            let p = m[..m.len() - 1].to_string();
            Box::new(move |i, _: &mut Rng, b: &mut Batch, keep| replay::case(&p, i, b, &given, keep))
        }
        _ => {
            eprintln!("unknown mode {}", a.mode);
            std::process::exit(2)
        }
    };
    let seed = seed_of(&a.mode, a.seed);
    let run = |i: u64, b: &mut Batch| {
        // the first cases are judged, and then some all over the range
        let step = (a.cases / (a.keep / 2).max(1)).max(1);
        let keep = i < a.keep / 2 || i % step == step / 2;
        let from = b.lines.len();
        b.case = i;
        b.force = a.only.is_some();
        f(i, &mut Rng::new(seed, i), b, keep);
        b.stamp(from, i);
    };
    let mut all = Batch::default();
    if let Some(i) = a.only {
        let (run, all) = (&run, &mut all);
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || run(i, all)).unwrap();
        });
    } else {
        let threads = a.threads;
        let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let results: Vec<Mutex<Option<Batch>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let left = AtomicU64::new(threads as u64);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (current, results, run, a, left) = (&current, &results, &run, &a, &left);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        use std::os::unix::fs::FileExt;
                        let log = a.log.as_ref().map(|d| std::fs::File::create(format!("{}/case.{}", d, t)).unwrap());
                        let mut b = Batch::default();
                        let mut i = t as u64;
                        while i < a.cases {
                            current[t].store(i, Ordering::Relaxed);
                            if let Some(l) = &log {
                                l.write_all_at(format!("{:20}", i).as_bytes(), 0).unwrap();
                            }
                            run(i, &mut b);
                            i += threads as u64;
                        }
                        current[t].store(u64::MAX, Ordering::Relaxed);
                        *results[t].lock().unwrap() = Some(b);
                        left.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // a case that does not end
            let mut seen: Vec<(u64, std::time::Instant)> = (0..threads).map(|_| (u64::MAX, std::time::Instant::now())).collect();
            while left.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for t in 0..threads {
                    let i = current[t].load(Ordering::Relaxed);
                    if i != seen[t].0 {
                        seen[t] = (i, std::time::Instant::now());
                    } else if i != u64::MAX && seen[t].1.elapsed().as_secs() >= a.hang {
                        std::fs::write(format!("{}.hang", a.out), i.to_string()).unwrap();
                        std::process::exit(3);
                    }
                }
            }
        });
        for r in results {
            all.merge(r.into_inner().unwrap().unwrap());
        }
    }
    all.pick_suspects();
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for l in &all.lines {
        writeln!(w, "{}", l).unwrap();
    }
    w.flush().unwrap();
    let counts: Vec<String> = all.counts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    std::fs::write(
        format!("{}.stats", a.out),
        format!("{{\"cases\":{},\"suspicious\":{},\"events\":{},\"counts\":{{{}}}}}", a.cases, all.suspicious, all.lines.len(), counts.join(",")),
    )
    .unwrap();
}

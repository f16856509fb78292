// Counterexample search against the real code: copied into a build of /repo/src as a child module
// of the crate root (see py/hx.py), so it calls the real functions.
#![allow(dead_code)]
#![allow(unused)]

use std::{
    collections::HashSet,
    fmt::Write as _,
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub mod gen;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(any(feature = "c06", feature = "c07"))]
pub mod tok;
#[cfg(any(feature = "c06", feature = "c08"))]
pub mod parse;
#[cfg(any(feature = "c06", feature = "c09"))]
pub mod val;
#[cfg(feature = "c11")]
pub mod fmt;
#[cfg(feature = "c13")]
pub mod rel;
#[cfg(feature = "c13")]
pub mod tree;
#[cfg(feature = "c14")]
pub mod ident;
#[cfg(feature = "c15")]
pub mod load;
#[cfg(feature = "cli")]
pub mod cli;
#[cfg(feature = "c18")]
pub mod list;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub enum Verdict {
    // The case was checked; the flag says whether it was non-trivial.
    Ok(bool),
    Violation(String),
}

pub trait Prop: Sync + Send {
    // Number of cases which are enumerated rather than drawn at random.
    fn enumerated(&self) -> u64 {
        0
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String>;
    fn check(&self, input: &str) -> Verdict;
    fn rule(&self) -> &'static str;
    // Whether the input may be made smaller character by character.
    fn shrinkable(&self) -> bool {
        true
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}

fn guarded(p: &dyn Prop, input: &str) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| p.check(input))) {
        Ok(v) => v,
        Err(e) => Verdict::Violation(format!("panic: {}", panic_text(&*e))),
    }
}

fn shrink(p: &dyn Prop, input: &str, deadline: Instant) -> String {
    let mut best: Vec<char> = input.chars().collect();
    let bad = |cs: &[char]| {
        let s: String = cs.iter().collect();
        matches!(guarded(p, &s), Verdict::Violation(_))
    };
    let mut chunk = best.len().max(1);
    while chunk >= 1 {
        let mut i = 0;
        let mut changed = false;
        while i < best.len() && Instant::now() < deadline {
            let mut c = best.clone();
            let e = (i + chunk).min(c.len());
            c.drain(i..e);
            if bad(&c) {
                best = c;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if Instant::now() >= deadline {
            break;
        }
        if !changed {
            chunk /= 2;
        }
    }
    best.into_iter().collect()
}

pub fn props(name: &str) -> Option<Box<dyn Prop>> {
    match name {
        #[cfg(feature = "c06")]
        "c06" => Some(Box::new(c06::C06)),
        #[cfg(feature = "c07")]
        "c07" => Some(Box::new(tok::C07)),
        #[cfg(feature = "c08")]
        "c08" => Some(Box::new(parse::C08)),
        #[cfg(feature = "c09")]
        "c09" => Some(Box::new(val::C09 { cycles: false })),
        #[cfg(feature = "c09")]
        "c10" => Some(Box::new(val::C09 { cycles: true })),
        #[cfg(feature = "c11")]
        "c11" => Some(Box::new(fmt::C11)),
        #[cfg(feature = "c13")]
        "c13" => Some(Box::new(rel::C13)),
        #[cfg(feature = "c13")]
        "c13t" => Some(Box::new(tree::Tree)),
        #[cfg(feature = "c14")]
        "c14" => Some(Box::new(ident::C14)),
        #[cfg(feature = "cli")]
        "c12" => Some(Box::new(cli::C12)),
        #[cfg(feature = "cli")]
        "c16" => Some(Box::new(cli::C16)),
        #[cfg(feature = "cli")]
        "c19" => Some(Box::new(cli::C19)),
        #[cfg(feature = "c15")]
        "c15" => Some(Box::new(load::C15)),
        #[cfg(feature = "c18")]
        "c18" => Some(Box::new(list::C18)),
        _ => None,
    }
}

struct Report {
    evals: AtomicU64,
    nontrivial: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    violation: Mutex<Option<(String, String)>>,
    running: Vec<Mutex<Option<(Instant, String)>>>,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

fn emit(r: &Report, p: &dyn Prop, seed: u64, enumerated: u64, complete: bool) -> String {
    let mut o = String::from("{");
    let _ = write!(o, "\"evaluations\":{},", r.evals.load(Ordering::SeqCst));
    let _ = write!(o, "\"distinct_nontrivial\":{},", r.nontrivial.lock().unwrap().len());
    let _ = write!(o, "\"enumerated\":{enumerated},\"complete\":{complete},");
    let _ = write!(o, "\"seed\":{seed},\"rule\":{},", json_str(p.rule()));
    let _ = write!(
        o,
        "\"samples\":[{}],",
        r.samples.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    match &*r.violation.lock().unwrap() {
        None => o.push_str("\"violation\":null}"),
        Some((input, message)) => {
            let _ = write!(
                o,
                "\"violation\":{{\"input\":{},\"message\":{}}}}}",
                json_str(input),
                json_str(message)
            );
        }
    }
    o
}

pub fn main() {
    colored::control::set_override(false);
    let args: Vec<String> = std::env::args().collect();
    let name = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let Some(p) = props(&name) else {
        eprintln!("no such property: {name}");
        std::process::exit(3);
    };
    if args.iter().any(|a| a == "--loud") {
    } else {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let p: Arc<dyn Prop> = Arc::from(p);
    if let Some(file) = get("--replay") {
        let input = std::fs::read_to_string(file).unwrap();
        let q = p.clone();
        let done = Arc::new(Mutex::new(None));
        let d = done.clone();
        let _ = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let v = guarded(&*q, &input);
            *d.lock().unwrap() = Some(v);
        });
        let t0 = Instant::now();
        loop {
            if let Some(v) = done.lock().unwrap().take() {
                match v {
                    Verdict::Ok(_) => {
                        println!("{{\"violation\":null}}");
                    }
                    Verdict::Violation(m) => {
                        println!("{{\"violation\":{}}}", json_str(&m));
                    }
                }
                std::process::exit(0);
            }
            if t0.elapsed() > Duration::from_secs(20) {
                println!("{{\"violation\":\"does not terminate within 20 seconds\"}}");
                std::process::exit(0);
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let iters: u64 = get("--iters").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(6);
    let out = get("--out").unwrap();
    let crash = get("--crash");
    let enumerated = p.enumerated();
    let report = Arc::new(Report {
        evals: AtomicU64::new(0),
        nontrivial: Mutex::new(HashSet::new()),
        samples: Mutex::new(vec![]),
        violation: Mutex::new(None),
        running: (0..threads).map(|_| Mutex::new(None)).collect(),
    });
    let counter = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicU64::new(0));
    let alive = Arc::new(AtomicU64::new(threads as u64));
    let t0 = Instant::now();
    for t in 0..threads {
        let (p, report, counter, stop, alive) =
            (p.clone(), report.clone(), counter.clone(), stop.clone(), alive.clone());
        let crash = crash.clone();
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let mut crash_file =
                    crash.map(|c| std::fs::File::create(format!("{c}.{t}")).unwrap());
                while stop.load(Ordering::SeqCst) == 0 {
                    let base = counter.fetch_add(16, Ordering::SeqCst);
                    for i in base..base + 16 {
                        if stop.load(Ordering::SeqCst) != 0 {
                            break;
                        }
                        if i >= enumerated && (t0.elapsed().as_secs_f64() > secs || i >= iters) {
                            stop.store(1, Ordering::SeqCst);
                            break;
                        }
                        // A bound for the enumerated part, too.
                        if t0.elapsed().as_secs_f64() > secs * 4.0 + 20.0 {
                            stop.store(2, Ordering::SeqCst);
                            break;
                        }
                        let mut rng = Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ (i << 8));
                        rng.next();
                        let input = match catch_unwind(AssertUnwindSafe(|| p.gen(&mut rng, i))) {
                            Ok(Some(x)) => x,
                            Ok(None) => continue,
                            Err(e) => {
                                // The generator may call real code, too.
                                *report.violation.lock().unwrap() = Some((
                                    format!("generator case {i} of seed {seed}"),
                                    format!("panic: {}", panic_text(&*e)),
                                ));
                                stop.store(1, Ordering::SeqCst);
                                break;
                            }
                        };
                        if let Some(f) = &mut crash_file {
                            use std::os::unix::fs::FileExt;
                            let b = input.as_bytes();
                            let _ = f.write_all_at(&(b.len() as u64).to_le_bytes(), 0);
                            let _ = f.write_all_at(b, 8);
                        }
                        *report.running[t].lock().unwrap() = Some((Instant::now(), input.clone()));
                        let v = guarded(&*p, &input);
                        *report.running[t].lock().unwrap() = None;
                        report.evals.fetch_add(1, Ordering::SeqCst);
                        match v {
                            Verdict::Ok(nontrivial) => {
                                if nontrivial {
                                    let mut n = report.nontrivial.lock().unwrap();
                                    n.insert(hash(&input));
                                    drop(n);
                                    if i % 997 == 3 || i < 400 {
                                        let mut s = report.samples.lock().unwrap();
                                        if s.len() < 4 && input.len() < 600 {
                                            s.push(input);
                                        }
                                    }
                                }
                            }
                            Verdict::Violation(m) => {
                                let mut v = report.violation.lock().unwrap();
                                if v.is_none() {
                                    *v = Some((input, m));
                                }
                                stop.store(1, Ordering::SeqCst);
                            }
                        }
                    }
                }
                alive.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let mut hung = false;
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if alive.load(Ordering::SeqCst) == 0 {
            break;
        }
        for r in &report.running {
            let g = r.lock().unwrap();
            if let Some((t, input)) = &*g {
                if t.elapsed() > Duration::from_secs(20) {
                    let mut v = report.violation.lock().unwrap();
                    if v.is_none() {
                        *v = Some((
                            input.clone(),
                            "does not terminate within 20 seconds".to_owned(),
                        ));
                    }
                    hung = true;
                }
            }
        }
        if hung {
            break;
        }
    }
    if !hung && p.shrinkable() {
        let found = report.violation.lock().unwrap().clone();
        if let Some((input, _)) = found {
            let q = p.clone();
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || shrink(&*q, &input, Instant::now() + Duration::from_secs(5)))
                .unwrap();
            let small = h.join().unwrap();
            if let Verdict::Violation(m) = guarded(&*p, &small) {
                *report.violation.lock().unwrap() = Some((small, m));
            }
        }
    }
    let complete = stop.load(Ordering::SeqCst) != 2 && counter.load(Ordering::SeqCst) >= enumerated;
    let text = emit(&report, &*p, seed, enumerated, complete);
    std::fs::write(out, text).unwrap();
    std::process::exit(0);
}

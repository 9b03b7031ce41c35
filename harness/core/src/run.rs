//! Case runner: threads, panic capture, counters, replayable violations, JSON report.
use crate::rng::{Rng, hash64};
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
    pub input: String,
    pub stream: &'static str,
    pub case: u64,
}
#[derive(Default)]
pub struct Out {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub nviols: u64,
}
pub struct Case<'a> {
    pub r: Rng,
    pub out: &'a mut Out,
    pub idx: u64,
    pub stream: &'static str,
    pub verbose: bool,
    pub tier_thorough: bool,
}
impl Case<'_> {
    /// One execution judged; `key` identifies what was observed (distinct and non-trivial if Some).
    pub fn eval(&mut self, key: Option<&str>) {
        self.out.evaluations += 1;
        if let Some(k) = key {
            self.out.distinct.insert(hash64(k.as_bytes()));
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.out.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: usize) {
        *self.out.counters.entry(k.to_string()).or_default() += n as u64;
    }
    pub fn sample(&mut self, s: &str) {
        if self.out.samples.len() < 4 && self.idx % 7 == 3 && s.len() < 600 {
            self.out.samples.push(s.to_string());
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>, input: &str) {
        self.out.nviols += 1;
        let (sig, msg) = (sig.into(), msg.into());
        if self.verbose {
            eprintln!("--- {sig}: {msg}\n--- input:\n{input}\n--- {:?}", input);
        }
        if self.out.viols.iter().filter(|v| v.sig == sig).count() < 3 && self.out.viols.len() < 60 {
            self.out.viols.push(Viol { sig, msg, input: input.to_string(), stream: self.stream, case: self.idx });
        }
    }
    /// Run code under test; a panic is returned as Err(message).
    pub fn guard<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        guard(f)
    }
}
thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {l}: {}", m.chars().take(300).collect::<String>())));
    }));
}
pub type CaseFn = fn(&mut Case);
pub struct Stream {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Spec {
    pub prop: &'static str,
    pub rule: &'static str,
    pub streams: Vec<Stream>,
    /// counters that must be non-zero, or the run observed too little to say anything
    pub must: &'static [&'static str],
}
/// A deterministic probe of a recorded defect: fixed input, fails or not.
pub struct Probe {
    pub prop: &'static str,
    pub id: &'static str,
    pub input: &'static str,
    pub f: fn(&str) -> Result<(), String>,
}
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub secs: f64,
    pub jobs: usize,
    pub progress: Option<String>,
    pub report: Option<String>,
    pub scale: f64,
}
fn one(s: &Stream, prop: &str, seed: u64, idx: u64, out: &mut Out, verbose: bool, thorough: bool) {
    let name = format!("{prop}/{}", s.name);
    let mut c = Case { r: Rng::new(seed, &name, idx), out, idx, stream: s.name, verbose, tier_thorough: thorough };
    let f = s.f;
    if let Err(m) = guard(AssertUnwindSafe(|| f(&mut c))) {
        // a panic outside any guarded call: the harness itself
        c.fail("harness-panic", m, "");
    }
}
pub fn run_one(spec: &Spec, stream: &str, seed: u64, idx: u64, thorough: bool) -> J {
    let mut out = Out::default();
    let s = spec.streams.iter().find(|s| s.name == stream).expect("stream");
    one(s, spec.prop, seed, idx, &mut out, true, thorough);
    report(spec, vec![out], 0.0, false)
}
pub fn run(spec: &Spec, o: &Opts) -> J {
    let t0 = Instant::now();
    let prog = o.progress.as_ref().map(|p| {
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("progress file");
        f.write_at(&vec![0u8; 32 * o.jobs], 0).unwrap();
        f
    });
    let prog = Arc::new(prog);
    let mut outs = vec![];
    let total: u64 = spec.streams.iter().map(|s| if o.thorough { s.thorough } else { s.quick }).sum();
    let mut cut = false;
    let mut used = 0f64;
    for (si, s) in spec.streams.iter().enumerate() {
        let n = ((if o.thorough { s.thorough } else { s.quick }) as f64 * o.scale) as u64;
        if n == 0 {
            continue;
        }
        // every stream gets its share of the time limit
        used += n as f64 / (total as f64 * o.scale).max(1.0);
        let deadline = o.secs * used;
        let next = AtomicU64::new(0);
        let results: Mutex<Vec<Out>> = Mutex::new(vec![]);
        let timed = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for j in 0..o.jobs {
                let (next, results, timed, prog) = (&next, &results, &timed, prog.clone());
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut out = Out::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            if i % 16 == 0 && t0.elapsed().as_secs_f64() > deadline {
                                timed.store(1, Ordering::Relaxed);
                                break;
                            }
                            if let Some(f) = prog.as_ref() {
                                let mut b = [0u8; 32];
                                b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                b[8..16].copy_from_slice(&i.to_le_bytes());
                                let ms = t0.elapsed().as_millis() as u64;
                                b[16..24].copy_from_slice(&ms.to_le_bytes());
                                let _ = f.write_at(&b, 32 * j as u64);
                            }
                            one(s, spec.prop, o.seed, i, &mut out, false, o.thorough);
                        }
                        if let Some(f) = prog.as_ref() {
                            let _ = f.write_at(&[0u8; 32], 32 * j as u64);
                        }
                        results.lock().unwrap().push(out);
                    })
                    .unwrap();
            }
        });
        cut |= timed.load(Ordering::Relaxed) > 0;
        outs.extend(results.into_inner().unwrap());
    }
    report(spec, outs, t0.elapsed().as_secs_f64(), cut)
}
fn probes(prop: &str) -> Vec<J> {
    crate::checks::known::PROBES
        .iter()
        .filter(|p| p.prop == prop)
        .map(|p| {
            let r = match guard(|| (p.f)(p.input)) {
                Ok(r) => r,
                Err(m) => Err(m),
            };
            json!({"id": p.id, "input": p.input, "fails": r.is_err(), "msg": r.err().unwrap_or_default()})
        })
        .collect()
}
fn report(spec: &Spec, outs: Vec<Out>, wall: f64, cut: bool) -> J {
    let mut all = Out::default();
    for o in outs {
        all.evaluations += o.evaluations;
        all.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *all.counters.entry(k).or_default() += v;
        }
        all.samples.extend(o.samples);
        all.viols.extend(o.viols);
        all.nviols += o.nviols;
    }
    all.samples.truncate(6);
    all.viols.sort_by(|a, b| (&a.sig, a.input.len(), a.case).cmp(&(&b.sig, b.input.len(), b.case)));
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    let v: Vec<J> = all
        .viols
        .iter()
        .filter(|v| {
            let n = per.entry(v.sig.clone()).or_default();
            *n += 1;
            *n <= 3
        })
        .map(|v| json!({"sig": v.sig, "msg": v.msg, "input": v.input, "stream": v.stream, "case": v.case}))
        .collect();
    let missing: Vec<&str> = spec.must.iter().copied().filter(|k| all.counters.get(*k).copied().unwrap_or(0) == 0).collect();
    json!({
        "prop": spec.prop, "rule": spec.rule, "evaluations": all.evaluations, "distinct": all.distinct.len(),
        "counters": all.counters, "samples": all.samples, "violations": v, "nviolations": all.nviols,
        "wall": wall, "cut_by_time": cut, "missing": missing,
        "streams": spec.streams.iter().map(|s| s.name).collect::<Vec<_>>(),
        "known": probes(spec.prop),
    })
}
pub fn write_report(j: &J, path: &str) {
    let mut f = std::fs::File::create(path).expect("report");
    f.write_all(serde_json::to_string_pretty(j).unwrap().as_bytes()).unwrap();
}

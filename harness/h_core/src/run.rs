//! Cases in parallel, merged into one context.
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use vcommon::*;

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub saw: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<(String, String)>,
}
impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// keys that start with "max " keep the largest value
    pub fn most(&mut self, k: &str, n: u64) {
        debug_assert!(k.starts_with("max "));
        let m = self.counts.entry(k.to_string()).or_insert(0);
        *m = (*m).max(n);
    }
    pub fn saw<T: std::hash::Hash>(&mut self, t: &T) {
        self.saw.push(hash64(t));
    }
    pub fn violation(&mut self, sig: &str, detail: String) {
        self.violations.push((sig.into(), detail));
    }
    fn absorb(&mut self, o: Report) {
        self.evals += o.evals;
        self.saw.extend(o.saw);
        for (k, n) in o.counts {
            if k.starts_with("max ") {
                self.most(&k, n);
            } else {
                self.count(&k, n);
            }
        }
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
        }
        self.violations.extend(o.violations);
    }
}
/// Runs cases 0..n on all cores until done, out of time, or enough deviations.
pub fn parallel(ctx: &mut Ctx, stream: u64, n: u64, f: impl Fn(u64, &mut Rng, &mut Report) + Sync) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Report::default());
    let bad = AtomicU64::new(0);
    let base = ctx.rng(stream).u64();
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8);
    let only: Option<u64> = std::env::var("VERIF_CASE").ok().and_then(|v| v.parse().ok());
    {
        let ctx = &*ctx;
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || {
                        let mut mine = Report::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || stop.load(Ordering::Relaxed) || ctx.out_of_time() {
                                break;
                            }
                            if only.is_some_and(|o| o != i) {
                                continue;
                            }
                            let mut r = Rng::new(base ^ i.wrapping_mul(0xA076_1D64_78BD_642F));
                            let mut rep = Report::default();
                            label(format!("case {i} of stream {stream}, seed {}", ctx.seed));
                            let began = std::time::Instant::now();
                            if let Err(p) = guarded(|| f(i, &mut r, &mut rep)) {
                                // the harness itself panicked: an inconclusive run, not a verdict
                                eprintln!("harness panic in case {i} of stream {stream}: {p}");
                                std::process::exit(3);
                            }
                            rep.most("max ms of a case", began.elapsed().as_millis() as u64);
                            for v in &mut rep.violations {
                                v.1 = format!("case {i} of stream {stream}, seed {}\n{}", ctx.seed, v.1);
                            }
                            if bad.fetch_add(rep.violations.len() as u64, Ordering::Relaxed) + rep.violations.len() as u64 >= 5 {
                                stop.store(true, Ordering::Relaxed);
                            }
                            mine.absorb(rep);
                        }
                        total.lock().unwrap().absorb(mine);
                    })
                    .expect("thread");
            }
        });
    }
    let t = total.into_inner().unwrap();
    ctx.evaluations += t.evals;
    for s in t.saw {
        ctx.saw(&s);
    }
    for (k, n) in t.counts {
        ctx.count(&k, n);
    }
    for s in t.samples {
        ctx.sample(s);
    }
    let mut v = t.violations;
    v.sort();
    for (s, d) in v {
        ctx.violation(&s, &d);
    }
}

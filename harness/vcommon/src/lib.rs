//! Shared by all harnesses: seeded randomness, verdicts, evidence files, known findings.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::fd::AsFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// splitmix64-seeded xoshiro256**
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % (n as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub start: Instant,
    pub evaluations: u64,
    distinct: BTreeSet<u64>,
    samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    known: Vec<(String, String)>, // signature, description
    known_hit: BTreeMap<String, String>,
    violations: Vec<(String, String)>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: Map<String, Value>,
    pub min_evaluations: u64,
    deadline: Duration,
}

impl Ctx {
    /// args: ID TIER
    pub fn from_env(default_rule: &str) -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let id = args.get(1).cloned().unwrap_or_default();
        let tier = match args.get(2).map(String::as_str).unwrap_or("quick") {
            "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for line in text.lines() {
                // known: property=<id> signature=<sig> | description
                if let Some(rest) = line.strip_prefix("known: ") {
                    let (head, desc) = rest.split_once(" | ").unwrap_or((rest, ""));
                    let mut prop = "";
                    let mut sig = "";
                    for part in head.split_whitespace() {
                        if let Some(v) = part.strip_prefix("property=") {
                            prop = v;
                        }
                        if let Some(v) = part.strip_prefix("signature=") {
                            sig = v;
                        }
                    }
                    if prop == id && !sig.is_empty() {
                        known.push((sig.to_string(), desc.to_string()));
                    }
                }
            }
        }
        let secs = match tier {
            Tier::Quick => 60,
            Tier::Thorough => 600,
        };
        watch_for_hangs(id.clone(), tier, seed, verif.clone());
        Ctx {
            id,
            tier,
            seed,
            verif,
            start: Instant::now(),
            evaluations: 0,
            distinct: BTreeSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            known,
            known_hit: BTreeMap::new(),
            violations: vec![],
            rule: default_rule.into(),
            assumptions: vec![],
            extra: Map::new(),
            min_evaluations: 1,
            deadline: Duration::from_secs(secs),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// number of cases by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&self.id, self.seed, stream).hash(&mut h);
        Rng::new(h.finish())
    }
    /// the time for observing starts now, after a preparation of unknown length
    pub fn prepared(&mut self) {
        self.deadline += self.start.elapsed();
    }
    pub fn set_deadline(&mut self, quick: u64, thorough: u64) {
        self.deadline = Duration::from_secs(self.n(quick, thorough));
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.deadline
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    /// a non-trivial situation, identified by what was observed
    pub fn saw<T: Hash>(&mut self, what: &T) {
        self.distinct.insert(hash64(what));
    }
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 8 {
            self.samples.push(v);
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn enough_violations(&self) -> bool {
        self.violations.len() >= 5
    }
    /// Report a deviation. `signature` identifies the failing input/call site exactly.
    pub fn violation(&mut self, signature: &str, detail: &str) {
        if let Some((sig, desc)) = self.known.iter().find(|(s, _)| s == signature) {
            self.known_hit.insert(sig.clone(), desc.clone());
            return;
        }
        if self.violations.len() < 20 {
            eprintln!("--- deviation [{signature}]\n{}", truncate(detail, 4000));
            self.violations.push((signature.into(), detail.into()));
        }
    }
    /// Writes evidence, prints verdict lines, returns the exit code.
    pub fn finish(mut self) -> i32 {
        for (_s, d) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {}", self.id, d);
        }
        let mut coverage = Map::new();
        coverage.insert("evaluations".into(), json!(self.evaluations));
        coverage.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        coverage.insert("rule".into(), json!(self.rule));
        if self.samples.is_empty() {
            self.samples.push(json!("none"));
        }
        coverage.insert("samples".into(), json!(self.samples));
        coverage.insert("observed".into(), json!(self.counters));
        for (k, v) in &self.extra {
            coverage.insert(k.clone(), v.clone());
        }
        let level = std::env::var("VERIF_LEVEL").unwrap_or_else(|_| "exploration".into());
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "violations": self.violations.len(),
            "wall_s": (self.start.elapsed().as_millis() as f64) / 1000.0,
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        ) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        if !self.violations.is_empty() {
            let rdir = self.verif.join("work").join("replay");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}-{}.txt", self.id, self.seed));
            let mut text = String::new();
            for (s, d) in &self.violations {
                text.push_str(&format!("== {s}\n{d}\n\n"));
            }
            let _ = std::fs::write(&path, text);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            return 1;
        }
        if self.evaluations < self.min_evaluations || self.distinct.is_empty() {
            eprintln!(
                "inconclusive: only {} evaluations, {} distinct observations",
                self.evaluations,
                self.distinct.len()
            );
            return 2;
        }
        println!(
            "HELD property={} evaluations={} distinct={} wall={:.1}s",
            self.id,
            self.evaluations,
            self.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}… ({} bytes)", &s[..k], s.len())
    }
}

/// Calls under way, by thread: when the outermost began, and what it is.
static UNDER_WAY: Mutex<BTreeMap<u64, (Instant, String)>> = Mutex::new(BTreeMap::new());
/// A call that takes longer than this many seconds does not answer.
pub static HANG_AFTER: AtomicU64 = AtomicU64::new(100);
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: u64 = NEXT.fetch_add(1, Ordering::Relaxed);
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LABEL: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// What this thread is about to try, for the report if it never ends.
pub fn label(s: String) {
    LABEL.with(|l| *l.borrow_mut() = s);
}
struct UnderWay;
impl UnderWay {
    fn new() -> Self {
        if DEPTH.with(|d| d.replace(d.get() + 1)) == 0 {
            let label = LABEL.with(|l| l.borrow().clone());
            UNDER_WAY.lock().unwrap().insert(ME.with(|m| *m), (Instant::now(), label));
        }
        UnderWay
    }
}
impl Drop for UnderWay {
    fn drop(&mut self) {
        if DEPTH.with(|d| d.replace(d.get() - 1)) == 1 {
            UNDER_WAY.lock().unwrap().remove(&ME.with(|m| *m));
        }
    }
}
/// Ends the run with a verdict when a call does not come back.
fn watch_for_hangs(id: String, tier: Tier, seed: u64, verif: PathBuf) {
    // the verdict line, even while a monitor has turned standard output away
    let mut verdicts = std::fs::File::from(std::io::stdout().as_fd().try_clone_to_owned().expect("stdout"));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let limit = HANG_AFTER.load(Ordering::Relaxed);
        let stuck = UNDER_WAY.lock().unwrap().values().find(|(t, _)| t.elapsed().as_secs() >= limit).map(|(_, l)| l.clone());
        let Some(label) = stuck else { continue };
        let rdir = verif.join("work").join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{seed}.txt"));
        let text = format!("== hang\nno answer after {limit} s\n{label}\n");
        eprintln!("{}", truncate(&text, 4000));
        let _ = std::fs::write(&path, text);
        let ev = json!({
            "property": id, "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" }, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "one call that did not end", "samples": [truncate(&label, 500)]},
            "assumptions": [], "violations": 1, "wall_s": limit as f64,
        });
        let dir = verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{id}.json")), ev.to_string() + "\n");
        let _ = writeln!(verdicts, "VIOLATION property={id} replay={}", path.display());
        std::process::exit(1);
    });
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let _under_way = UnderWay::new();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    }
}

/// Silences the default panic output (the panics we catch are verdicts).
pub fn quiet_panics() {
    if std::env::var("VERIF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

//! Shared runtime-monitoring kernel: seeded PRNG, verdict recorder, evidence writer, watchdog.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;


/// splitmix64-seeded xoshiro256**.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
        let mut s = [0u64; 4];
        for v in &mut s {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = x ^ (x >> 31);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// log-uniform in [a,b]
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.range(a.ln(), b.ln())).exp()
    }
    /// 0..n, once in a hundred 0..big
    pub fn len(&mut self, n: usize, big: usize) -> usize {
        if self.p(0.01) { self.n(big) } else { self.n(n) }
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.f();
        (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * self.f()).cos()
    }
    pub fn unit(&mut self) -> [f64; 3] {
        let z = self.range(-1.0, 1.0);
        let p = self.range(0.0, std::f64::consts::TAU);
        let s = (1.0 - z * z).max(0.0).sqrt();
        [s * p.cos(), s * p.sin(), z]
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Inner {
    evals: u64,
    distinct: HashSet<u64>,
    per_kind: BTreeMap<String, (u64, u64)>,
    samples: BTreeMap<String, Vec<String>>,
    violations: Vec<(String, String)>,
    vio_sigs: BTreeMap<String, u64>,
    maxerr: BTreeMap<String, f64>,
    counters: BTreeMap<String, u64>,
}

pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    rule: String,
    assumptions: Vec<String>,
    t0: Instant,
    inner: Mutex<Inner>,
    known: Vec<(String, String)>,
    min_kinds: Mutex<Vec<(String, u64)>>,
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run `f`; a panic becomes `Err(message @ location)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// CPU-time watchdog for "terminates" claims: (case label, start cpu secs) of the active case.
pub static CASE_BUDGET: AtomicU64 = AtomicU64::new(0);

static RUN_STARTED: OnceLock<Instant> = OnceLock::new();

impl Run {
    pub fn new(id: &str, rule: &str) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".into()
            };
            let full = format!("{msg} @ {loc}");
            PANIC_MSG.with(|m| *m.borrow_mut() = full.clone());
            if let Ok(mut g) = LAST_PANIC.try_lock() {
                *g = full.clone();
            }
            if std::env::var("VH_PANICS").is_ok() {
                eprintln!("panic: {full}");
            }
        }));
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        RUN_STARTED.get_or_init(Instant::now);
        // Generous wall-clock watchdog: firing is inconclusive (exit 3), never a violation.
        let limit: u64 = std::env::var("VH_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(
            if tier == "thorough" { 3500 } else { 780 },
        );
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            eprintln!("INCONCLUSIVE: wall-clock watchdog after {limit} s");
            std::process::exit(3);
        });
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in t.lines() {
                let l = l.trim();
                if let Some(rest) = l.strip_prefix("KNOWN-FINDING: property=") {
                    if let Some((pid, rest)) = rest.split_once(' ') {
                        if pid == id {
                            let (sig, what) = rest.split_once(" | ").unwrap_or((rest, rest));
                            known.push((sig.trim().to_string(), what.trim().to_string()));
                        }
                    }
                }
            }
        }
        Run {
            id: id.into(),
            tier,
            seed,
            rule: rule.into(),
            assumptions: vec![],
            t0: Instant::now(),
            inner: Mutex::new(Inner::default()),
            known,
            min_kinds: Mutex::new(vec![]),
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Workload size: quick `q`, thorough `t`.
    pub fn size(&self, q: usize, t: usize) -> usize {
        let k: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        ((if self.thorough() { t } else { q }) as f64 * k).max(1.0) as usize
    }
    pub fn rng(&self, stream: &str) -> Rng {
        Rng::new(self.seed ^ hash_of(&stream.to_string()))
    }
    pub fn rng_i(&self, stream: &str, i: usize) -> Rng {
        Rng::new(self.seed ^ hash_of(&(stream.to_string(), i)))
    }
    /// Record one observed evaluation of kind `kind`; `key` identifies the case (distinctness).
    pub fn eval<K: Hash>(&self, kind: &str, key: K) {
        let h = hash_of(&(kind, hash_of(&key)));
        let mut g = self.inner.lock().unwrap();
        g.evals += 1;
        let new = g.distinct.insert(h);
        if let Some(e) = g.per_kind.get_mut(kind) {
            e.0 += 1;
            if new {
                e.1 += 1;
            }
        } else {
            g.per_kind.insert(kind.to_string(), (1, u64::from(new)));
        }
    }
    /// Record `n` evaluations observed elsewhere (worker processes), `hashes` identifying the distinct cases.
    pub fn eval_many(&self, kind: &str, n: u64, hashes: impl IntoIterator<Item = u64>) {
        let mut g = self.inner.lock().unwrap();
        g.evals += n;
        let new = hashes.into_iter().filter(|h| g.distinct.insert(*h)).count() as u64;
        let e = g.per_kind.entry(kind.to_string()).or_insert((0, 0));
        *e = (e.0 + n, e.1 + new);
    }
    pub fn sample(&self, kind: &str, f: impl FnOnce() -> String) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.get(kind).map_or(0, Vec::len) < 2 {
            let s = f();
            g.samples.entry(kind.to_string()).or_default().push(s);
        }
    }
    /// A counter of something the monitors observed.
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }
    /// The workload must have observed at least `n` evaluations of `kind`, else inconclusive.
    pub fn require(&self, kind: &str, n: u64) {
        self.min_kinds.lock().unwrap().push((kind.to_string(), n));
    }
    /// `err <= tol` with the maximum recorded.
    pub fn within(&self, sig: &str, err: f64, tol: f64, detail: impl FnOnce() -> String) -> bool {
        {
            let mut g = self.inner.lock().unwrap();
            let r = if err.is_nan() { f64::INFINITY } else { err / tol };
            if let Some(e) = g.maxerr.get_mut(sig) {
                *e = e.max(r);
            } else {
                g.maxerr.insert(sig.to_string(), r);
            }
        }
        if !(err <= tol) {
            self.violation(sig, &format!("err {err:e} > tol {tol:e}: {}", detail()));
            return false;
        }
        true
    }
    pub fn check(&self, cond: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !cond {
            self.violation(sig, &detail());
        }
        cond
    }
    pub fn violation(&self, sig: &str, detail: &str) {
        let mut g = self.inner.lock().unwrap();
        let n = g.vio_sigs.entry(sig.to_string()).or_insert(0);
        *n += 1;
        if *n <= 5 {
            g.violations.push((sig.to_string(), detail.to_string()));
        }
    }
    /// Run `f`, a panic in it is a violation with signature `sig`.
    pub fn no_panic<T>(&self, sig: &str, detail: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.violation(sig, &format!("panicked: {m}; {}", detail()));
                None
            }
        }
    }
    /// Spread `n` independent cases over the cores; a panic inside the monitor's own case body is
    /// reported as a violation of `sig` (the bodies only call the system under test).
    pub fn par(&self, sig: &str, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicU64::new(0);
        let workers = std::thread::available_parallelism().map_or(4, |v| v.get()).min(8);
        std::thread::scope(|s| {
            for _ in 0..workers {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= n {
                            break;
                        }
                        if let Err(m) = guard(|| f(i)) {
                            self.violation(&format!("{sig}/panic"), &format!("case {i} (seed {}): {m}", self.seed));
                        }
                    })
                    .unwrap();
            }
        });
    }
    pub fn finish(self) -> ! {
        let g = self.inner.into_inner().unwrap();
        let dir = verif_dir();
        std::fs::create_dir_all(format!("{dir}/evidence/replays")).ok();
        let mut unlisted = vec![];
        for (sig, det) in &g.violations {
            if !self.known.iter().any(|(s, _)| s == sig) {
                unlisted.push((sig.clone(), det.clone()));
            }
        }
        let mut inconclusive = vec![];
        for (k, n) in self.min_kinds.lock().unwrap().iter() {
            let got = g.per_kind.get(k).map_or(0, |e| e.0).max(g.counters.get(k).copied().unwrap_or(0));
            if got < *n {
                inconclusive.push(format!("observed only {got} of >= {n} '{k}'"));
            }
        }
        let mut samples: Vec<serde_json::Value> = vec![];
        for (k, v) in &g.samples {
            for s in v {
                samples.push(serde_json::json!(format!("{k}: {s}")));
            }
        }
        if samples.is_empty() {
            for (k, (n, d)) in &g.per_kind {
                samples.push(serde_json::json!(format!("{k}: {n} evaluations, {d} distinct")));
            }
        }
        samples.truncate(40);
        let kinds: serde_json::Map<String, serde_json::Value> = g
            .per_kind
            .iter()
            .map(|(k, (n, d))| (k.clone(), serde_json::json!({"evaluations": n, "distinct": d})))
            .collect();
        let vios: Vec<serde_json::Value> = g
            .vio_sigs
            .iter()
            .map(|(k, n)| serde_json::json!(format!("{k} x{n}{}", if self.known.iter().any(|(s, _)| s == k) { " (known finding)" } else { "" })))
            .collect();
        let mut assumptions = self.assumptions.clone();
        assumptions.push("Holds on the executions observed by this run only; nothing is claimed for inputs the workload did not drive.".into());
        let ev = serde_json::json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": g.evals,
                "distinct_nontrivial": g.distinct.len(),
                "rule": self.rule,
                "samples": samples,
                "by_kind": kinds,
                "observed": g.counters,
                "violating_monitors": vios,
                "max_error_over_tolerance": g.maxerr.iter().map(|(k,v)| (k.clone(), serde_json::json!(if v.is_finite() {format!("{v:.3e}")} else {"inf".into()}))).collect::<serde_json::Map<_,_>>(),
            },
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "assumptions": assumptions,
            "violations": unlisted.len(),
        });
        std::fs::write(format!("{dir}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
        println!(
            "{} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
            self.id, self.tier, self.seed, g.evals, g.distinct.len(), self.t0.elapsed().as_secs_f64()
        );
        for (k, (n, d)) in &g.per_kind {
            println!("  {k}: {n} evaluations, {d} distinct");
        }
        if std::env::var("VH_VERBOSE").is_ok() {
            for (k, v) in g.maxerr.iter().filter(|(_, v)| **v > 0.02) {
                println!("  maxerr/tol {k}: {v:.3e}");
            }
            for (k, v) in &g.counters {
                println!("  count {k}: {v}");
            }
            for (k, v) in &g.vio_sigs {
                println!("  VIO {k}: x{v}");
            }
        }
        for (sig, what) in &self.known {
            if g.vio_sigs.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {} | {}", self.id, sig, what);
            } else {
                println!("note: listed finding {sig} was not reproduced by this run");
            }
        }
        if !unlisted.is_empty() {
            let path = format!("{dir}/evidence/replays/{}-{}-{}.txt", self.id, self.tier, self.seed);
            let mut t = String::new();
            let _ = writeln!(t, "property {} seed {} tier {}", self.id, self.seed, self.tier);
            let _ = writeln!(t, "replay: VERIF_SEED={} VERIF_TIER={} bash /verif/run.sh {}", self.seed, self.tier, self.id);
            for (s, d) in &unlisted {
                let _ = writeln!(t, "[{s}] {d}");
            }
            std::fs::write(&path, &t).ok();
            for (s, d) in unlisted.iter().take(25) {
                let mut d = d.clone();
                if d.len() > 1200 {
                    let mut k = 1200;
                    while !d.is_char_boundary(k) { k -= 1; }
                    d.truncate(k);
                }
                println!("  [{s}] {d}");
            }
            println!("VIOLATION property={} replay={}", self.id, path);
            std::process::exit(1);
        }
        if !inconclusive.is_empty() {
            eprintln!("INCONCLUSIVE: {}", inconclusive.join("; "));
            std::process::exit(3);
        }
        std::process::exit(0);
    }
}

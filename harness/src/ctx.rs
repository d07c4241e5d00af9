//! Run context: case scheduling, watchdog, panic capture, evidence and verdict.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use parking_lot::Mutex;
use serde_json::{Value as J, json};

use crate::rng::{Rng, mix};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static BACKGROUND_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub type Res = Result<(), String>;

#[derive(Clone, Debug)]
struct Violation {
    case: String,
    seed: u64,
    detail: String,
}

#[derive(Default)]
struct Inner {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<J>,
    sampled: HashMap<String, usize>,
    violations: Vec<Violation>,
    findings: Vec<(String, String)>,
    rules: Vec<String>,
    assumptions: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub only: Option<(String, u64)>,
    pub known: Vec<(String, String)>,
    level: &'static str,
    root: PathBuf,
    inner: Mutex<Inner>,
    done: AtomicBool,
}

/// Bookkeeping the watchdog reads: what each worker is running since when.
struct Slot {
    name: Mutex<Option<(String, u64, Instant, Duration)>>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[allow(dead_code)]
impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64, root: PathBuf, only: Option<(String, u64)>) -> Arc<Ctx> {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let line = format!("panic at {loc}: {msg}");
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(line.clone()));
            let mut b = BACKGROUND_PANICS.lock();
            if b.len() < 1000 {
                b.push(line);
            }
        }));
        let mut known = Vec::new();
        if let Ok(t) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
            let pfx = format!("known: property={id} key=");
            for l in t.lines() {
                if let Some(r) = l.strip_prefix(&pfx) {
                    let (k, what) = r.split_once(' ').unwrap_or((r, ""));
                    known.push((k.to_string(), what.trim().to_string()));
                }
            }
        }
        let ctx = Arc::new(Ctx {
            id: id.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            only,
            known,
            level: "exploration",
            root,
            inner: Mutex::new(Inner::default()),
            done: AtomicBool::new(false),
        });
        let w = ctx.clone();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(200));
                if w.done.load(Ordering::SeqCst) {
                    return;
                }
                let mut hung = None;
                for s in SLOTS.lock().iter() {
                    if let Some((n, seed, t, lim)) = s.name.lock().as_ref()
                        && t.elapsed() > *lim
                    {
                        hung = Some((n.clone(), *seed, lim.as_secs()));
                    }
                }
                if let Some((n, seed, lim)) = hung {
                    w.violation(&n, seed, format!("no progress: the case did not finish within {lim} s (deadlock, lost wakeup or endless loop)"));
                    w.finish();
                }
            }
        });
        ctx
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Seconds to spend on a part: `q` in the quick tier, scaled up in thorough.
    pub fn secs(&self, q: f64) -> f64 {
        if self.thorough() { q * 12.0 } else { q }
    }
    pub fn rule(&self, r: &str) {
        self.inner.lock().rules.push(r.into());
    }
    pub fn assume(&self, r: &str) {
        self.inner.lock().assumptions.push(r.into());
    }
    pub fn count(&self, k: &str, n: u64) {
        let mut i = self.inner.lock();
        if let Some(v) = i.counters.get_mut(k) {
            *v += n;
        } else {
            i.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut i = self.inner.lock();
        let e = i.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn eval(&self, n: u64) {
        self.inner.lock().evals += n;
    }
    /// Records an observed non-trivial state or case.
    pub fn seen<T: Hash>(&self, t: &T) {
        let h = hash_of(t);
        let mut i = self.inner.lock();
        if i.distinct.len() < 3_000_000 {
            i.distinct.insert(h);
        }
    }
    pub fn sample(&self, kind: &str, j: impl FnOnce() -> J) {
        let mut i = self.inner.lock();
        let n = i.sampled.entry(kind.to_string()).or_insert(0);
        if *n < 2 {
            *n += 1;
            drop(i);
            let v = j();
            self.inner.lock().samples.push(json!({"kind": kind, "case": v}));
        }
    }
    pub fn violation(&self, case: &str, seed: u64, detail: String) {
        let mut i = self.inner.lock();
        if i.violations.len() < 50 {
            i.violations.push(Violation { case: case.into(), seed, detail });
        }
    }
    pub fn violated(&self) -> usize {
        self.inner.lock().violations.len()
    }
    /// A deterministic probe of one recorded defect. `Ok(())`: the property holds here now.
    /// `Err(what)`: it fails; listed under `key` it is a known finding, otherwise a violation.
    pub fn probe(&self, key: &str, f: impl FnOnce() -> Res + Send) {
        if let Some((n, _)) = &self.only
            && n != key
        {
            return;
        }
        let r = self.guarded(key, 0, Duration::from_secs(90), f);
        self.eval(1);
        if let Err(e) = r {
            if self.known.iter().any(|(k, _)| k == key) {
                self.inner.lock().findings.push((key.into(), e));
            } else {
                self.violation(key, 0, e);
            }
        } else {
            self.count("probes_held", 1);
        }
    }

    /// Runs `f` with panics turned into errors, under the watchdog.
    pub fn guarded(&self, name: &str, seed: u64, limit: Duration, f: impl FnOnce() -> Res) -> Res {
        // sanitizers slow everything down
        let limit = if self.id == "P25" { limit * 5 } else { limit };
        let slot = Arc::new(Slot { name: Mutex::new(Some((name.to_string(), seed, Instant::now(), limit))) });
        SLOTS.lock().push(slot.clone());
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        let r = catch_unwind(AssertUnwindSafe(f));
        *slot.name.lock() = None;
        SLOTS.lock().retain(|s| !Arc::ptr_eq(s, &slot));
        match r {
            Ok(r) => r,
            Err(_) => Err(LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into())),
        }
    }

    /// Runs randomly generated cases on `threads` threads until the budget ends
    /// (at least `min` cases, at most `max`).
    pub fn explore(
        self: &Arc<Ctx>,
        name: &str,
        threads: usize,
        budget_s: f64,
        min: u64,
        max: u64,
        f: impl Fn(&Ctx, &mut Rng, u64) -> Res + Sync,
    ) {
        if let Some((n, s)) = &self.only {
            if n == name {
                let r = self.guarded(name, *s, Duration::from_secs(60), || f(self, &mut Rng::new(*s), *s));
                if let Err(e) = r {
                    self.violation(name, *s, e);
                }
                self.eval(1);
            }
            return;
        }
        let budget = Duration::from_secs_f64(self.secs(budget_s));
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| {
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= max || (i >= min && t0.elapsed() > budget) || t0.elapsed() > budget * 6 {
                            return;
                        }
                        let seed = mix(self.seed.wrapping_mul(0x1_0000_0001) ^ mix(i) ^ hash_of(&name));
                        let r = self.guarded(name, seed, Duration::from_secs(60), || {
                            f(self, &mut Rng::new(seed), seed)
                        });
                        self.eval(1);
                        self.count(&format!("cases_{name}"), 1);
                        if let Err(e) = r {
                            self.violation(name, seed, e);
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                });
            }
        });
    }

    /// One deterministic case.
    pub fn case(&self, name: &str, f: impl FnOnce() -> Res) {
        if let Some((n, _)) = &self.only
            && n != name
        {
            return;
        }
        let r = self.guarded(name, 0, Duration::from_secs(90), f);
        self.eval(1);
        if let Err(e) = r {
            self.violation(name, 0, e);
        }
    }

    pub fn background_panics() -> Vec<String> {
        std::mem::take(&mut *BACKGROUND_PANICS.lock())
    }

    /// Writes evidence and replay files, prints the verdict and ends the process.
    pub fn finish(&self) -> ! {
        if self.done.swap(true, Ordering::SeqCst) {
            std::thread::sleep(Duration::from_secs(60));
        }
        let i = self.inner.lock();
        let ev = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        for (k, what) in &self.known {
            match i.findings.iter().find(|(f, _)| f == k) {
                Some((_, e)) => println!("KNOWN-FINDING: property={} {k}: {what} [observed: {}]", self.id, one_line(e, 300)),
                None => {
                    if self.only.is_none() {
                        println!("note: listed finding {k} was not observed in this run");
                    }
                },
            }
        }
        let mut replay = String::new();
        if !i.violations.is_empty() {
            let dir = ev.join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}.txt", self.id));
            let mut t = String::new();
            for v in &i.violations {
                t += &format!(
                    "case={} seed={}\nreplay: ./check.sh {} {} --only {}:{}\n{}\n\n",
                    v.case, v.seed, self.id, self.tier, v.case, v.seed, v.detail
                );
            }
            let _ = std::fs::write(&p, &t);
            replay = p.to_string_lossy().into_owned();
            for v in i.violations.iter().take(5) {
                println!("failed case {} (seed {}): {}", v.case, v.seed, one_line(&v.detail, 1500));
            }
        }
        let mut cov = json!({
            "evaluations": i.evals,
            "distinct_nontrivial": i.distinct.len(),
            "rule": i.rules.join(" | "),
            "samples": i.samples,
            "observed": i.counters,
        });
        if !i.findings.is_empty() {
            cov["known_findings_observed"] = json!(i.findings.iter().map(|f| f.0.clone()).collect::<Vec<_>>());
        }
        let e = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": i.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": i.violations.len(),
        });
        let _ = std::fs::write(
            ev.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&e).unwrap_or_default() + "\n",
        );
        println!(
            "{}: {} evaluations, {} distinct states, {} violations, {:.1} s",
            self.id,
            i.evals,
            i.distinct.len(),
            i.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        let code = if i.violations.is_empty() {
            0
        } else {
            println!("VIOLATION property={} replay={}", self.id, replay);
            1
        };
        crate::util::sweep();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc_exit(code) }
    }
}

unsafe extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

fn one_line(s: &str, n: usize) -> String {
    let s = s.replace('\n', " ; ");
    s.chars().take(n).collect()
}

/// Err(..) with a formatted message unless the condition holds.
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

//! Runner: drives cases, catches panics of the code under test, keeps the verdict three-valued, writes the result.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
    /// when this thread entered the code under test (milliseconds after the start, 0: it is not in it)
    static ENTERED: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
}

fn millis() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg.chars().take(200).collect::<String>(), at)));
        } else {
            default(info)
        }
    }));
}

/// Run code under test; Err(message) if it panicked (refused).
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    ENTERED.with(|e| e.store(millis(), Ordering::Relaxed));
    let r = catch_unwind(AssertUnwindSafe(f));
    ENTERED.with(|e| e.store(0, Ordering::Relaxed));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into()))
}

pub struct Obs {
    /// hash of what makes this case distinct
    pub key: u64,
    pub nontrivial: bool,
    pub sample: Option<Value>,
}

pub enum Outcome {
    Held(Obs),
    Violated(String, Value),
    /// the oracle could not decide this case
    Undecided(&'static str),
}

pub fn held(key: &[u8], nontrivial: bool, sample: Value) -> Outcome {
    Outcome::Held(Obs {
        key: hash_bytes(key),
        nontrivial,
        sample: Some(sample),
    })
}
pub fn violated(what: impl Into<String>, detail: Value) -> Outcome {
    Outcome::Violated(what.into(), detail)
}

#[derive(Default)]
struct State {
    evaluations: u64,
    keys: HashSet<u64>,
    samples: BTreeMap<String, Vec<Value>>,
    counts: BTreeMap<String, u64>,
    maxima: BTreeMap<String, f64>,
    undecided: BTreeMap<String, u64>,
    violations: Vec<Value>,
    short: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub threads: usize,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub crumbs: String,
    st: Mutex<State>,
    stop: AtomicBool,
    /// section, case and begin of what each thread is doing
    doing: Doing,
}

type Doing = Arc<Mutex<BTreeMap<(usize, usize), (String, u64, Arc<AtomicU64>)>>>;

/// Ends the process with 78 when one call of the code under test does not return (the harness's own work does not
/// count); the driver repeats that case alone before it says so.
fn watch(doing: Doing) {
    let limit: u64 = std::env::var("SIAVP_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(150);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for (_, (section, case, entered)) in doing.lock().unwrap().iter() {
            let t = entered.load(Ordering::Relaxed);
            if t > 0 && millis().saturating_sub(t) >= limit * 1000 {
                eprintln!("\nHANG {section} {case}");
                std::process::exit(78);
            }
        }
    });
}

/// For threads outside a `drive`: ends the process with 78 when one call of this thread does not return.
pub fn watch_this_thread() {
    let entered = ENTERED.with(|e| e.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let t = entered.load(Ordering::Relaxed);
        if t > 0 && millis().saturating_sub(t) >= 150_000 {
            std::process::exit(78);
        }
    });
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, budget_s: f64, only: Option<(String, u64)>, crumbs: String) -> Self {
        let threads = std::env::var("SIAVP_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
        let scale = std::env::var("SIAVP_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
        let doing: Doing = Default::default();
        if std::env::var("SIAVP_HANG").as_deref() != Ok("0") {
            watch(doing.clone());
        }
        Ctx {
            doing,
            id: id.into(),
            thorough,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs_f64(budget_s),
            threads,
            scale,
            only,
            crumbs,
            st: Default::default(),
            stop: AtomicBool::new(false),
        }
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.st.lock().unwrap().counts.entry(name.into()).or_default() += n;
    }
    pub fn maximum(&self, name: &str, v: f64) {
        let mut s = self.st.lock().unwrap();
        let e = s.maxima.entry(name.into()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    pub fn counted(&self, name: &str) -> u64 {
        self.st.lock().unwrap().counts.get(name).cloned().unwrap_or(0)
    }
    /// At least `min` of this event must have been observed, or the run decides nothing.
    pub fn require(&self, name: &str, min: u64) {
        if self.only.is_some() {
            return;
        }
        let mut s = self.st.lock().unwrap();
        let have = s.counts.get(name).cloned().unwrap_or(0);
        let min = ((min as f64) * self.scale.min(1.0)).floor() as u64;
        if have < min && s.violations.is_empty() {
            s.short.push(format!("{name}: observed {have}, wanted {min}"));
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    /// A case outside `drive` (offline checkers).
    pub fn record(&self, section: &str, case: u64, o: Outcome) {
        self.absorb(section, case, o)
    }

    fn absorb(&self, section: &str, case: u64, o: Outcome) {
        let mut s = self.st.lock().unwrap();
        s.evaluations += 1;
        match o {
            Outcome::Held(obs) => {
                *s.counts.entry(format!("{section}.held")).or_default() += 1;
                if obs.nontrivial {
                    s.keys.insert(mix(obs.key ^ hash_bytes(section.as_bytes())));
                    let v = s.samples.entry(section.into()).or_default();
                    if v.len() < 3 {
                        if let Some(x) = obs.sample {
                            v.push(x);
                        }
                    }
                }
            }
            Outcome::Undecided(why) => *s.undecided.entry(format!("{section}: {why}")).or_default() += 1,
            Outcome::Violated(what, detail) => {
                if s.violations.len() < 20 {
                    s.violations.push(json!({
                        "property": self.id, "section": section, "case": case, "seed": self.seed,
                        "tier": if self.thorough {"thorough"} else {"quick"},
                        "what": what, "detail": detail,
                    }));
                }
                if s.violations.len() >= 5 {
                    self.stop.store(true, Ordering::Relaxed);
                }
            }
        }
    }

    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if quick == thorough {
            return quick; // an enumeration
        }
        // cheap executions are repeated more often; the budget cuts what is too much
        let more = match self.id.as_str() {
            "C02" | "C03" | "C12" => 2,
            "C06" => 3,
            "C01" | "C04" | "C09" | "C11" => 4,
            "C05" | "C08" | "C10" => 15,
            "C07" | "C21" => 20,
            "C23" | "C25" => 40,
            _ => 1,
        };
        let n = if self.thorough { thorough * 5 } else { quick };
        ((n as f64 * self.scale).ceil() as u64).max(1) * more
    }

    /// Runs cases 0..n of a section in parallel, each with its own generator; stops early when the budget share is used.
    pub fn drive(&self, section: &str, n: u64, share: f64, f: impl Fn(&mut Rng, u64) -> Outcome + Sync) {
        if let Some((s, _)) = &self.only {
            if s != section {
                return;
            }
        }
        let t0 = Instant::now();
        let limit = Duration::from_secs_f64(self.budget.as_secs_f64() * share);
        let base = mix(self.seed ^ hash_bytes(section.as_bytes()) ^ hash_bytes(self.id.as_bytes()));
        let next = AtomicU64::new(0);
        let work = |tid: usize| loop {
            let k = next.fetch_add(1, Ordering::Relaxed);
            let k = match &self.only {
                Some((_, c)) if k == 0 => *c,
                Some(_) => break,
                None => k,
            };
            if (self.only.is_none() && k >= n) || self.stopped() {
                break;
            }
            if t0.elapsed() > limit && self.only.is_none() {
                self.count(&format!("{section}.cut_by_time"), 1);
                break;
            }
            self.crumb(tid, section, k);
            let me = (section.as_ptr() as usize, tid);
            self.doing.lock().unwrap().insert(me, (section.into(), k, ENTERED.with(|e| e.clone())));
            let mut rng = Rng::new(base.wrapping_add(k.wrapping_mul(0x2545F4914F6CDD1D)));
            // a panic outside `call` is an error of the harness, not a verdict
            let t1 = Instant::now();
            let o = f(&mut rng, k);
            self.doing.lock().unwrap().remove(&me);
            self.maximum(&format!("{section}: slowest case (s)"), t1.elapsed().as_millis() as f64 / 1e3);
            self.absorb(section, k, o);
        };
        if self.threads == 1 {
            work(0);
        } else {
            std::thread::scope(|sc| {
                for t in 0..self.threads {
                    let w = &work;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || w(t))
                        .unwrap();
                }
            });
        }
        self.count(&format!("{section}.ms"), t0.elapsed().as_millis() as u64);
        for t in 0..self.threads {
            self.crumb(t, "", 0);
        }
    }

    /// Leaves a trace of the case in progress, so that a crash of the process can be attributed.
    fn crumb(&self, tid: usize, section: &str, case: u64) {
        if self.crumbs.is_empty() {
            return;
        }
        use std::os::unix::fs::FileExt;
        thread_local!(static F: RefCell<Option<std::fs::File>> = RefCell::new(None));
        let line = format!(
            "{:<60}\n",
            if section.is_empty() {
                String::new()
            } else {
                format!("{section} {case}")
            }
        );
        F.with(|f| {
            let mut f = f.borrow_mut();
            if f.is_none() {
                *f = std::fs::OpenOptions::new()
                    .create(true)
                    .write(true)
                    .truncate(false)
                    .open(&self.crumbs)
                    .ok();
            }
            if let Some(f) = f.as_ref() {
                let _ = f.write_at(line.as_bytes(), (tid * 61) as u64);
            }
        });
    }

    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> Value {
        let s = self.st.lock().unwrap();
        let mut samples = vec![];
        for (k, v) in &s.samples {
            for x in v {
                samples.push(json!({"section": k, "case": x}));
            }
        }
        samples.truncate(12);
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(s.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(s.keys.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(samples));
        cov.insert("observed".into(), json!(s.counts));
        cov.insert("maxima".into(), json!(s.maxima));
        cov.insert("undecided".into(), json!(s.undecided));
        json!({
            "evidence": {
                "property": self.id,
                "tier": if self.thorough {"thorough"} else {"quick"},
                "seed": self.seed,
                "level": "exploration",
                "coverage": cov,
                "assumptions": assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": s.violations.len(),
            },
            "violations": s.violations,
            "short": s.short,
        })
    }
}

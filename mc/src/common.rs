//! Exploration runner: families of cases, exhaustive enumeration on all cores, evidence, replays.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What a worker has covered.
#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub thorough: bool,
}

impl Ctx {
    /// A state of the system under exploration was visited.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(h64(t));
    }
    /// A case in which the property was not vacuous.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) {
        self.nontrivial.insert(h64(t));
    }
    /// An observed answer of the implementation.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(h64(t));
        }
    }
    pub fn op(&mut self) {
        self.transitions += 1;
    }
    pub fn ops(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    /// A failure that may be a listed known finding.
    pub fn known_or(&mut self, id: &str, msg: String) -> R {
        if known_ids().contains(id) {
            self.known.entry(id.to_string()).or_insert(msg);
            Ok(())
        } else {
            Err(msg)
        }
    }
    pub fn merge_from(&mut self, o: Ctx) {
        self.merge(o)
    }
    fn merge(&mut self, o: Ctx) {
        self.evaluations += o.evaluations;
        self.transitions += o.transitions;
        self.states.extend(o.states);
        self.nontrivial.extend(o.nontrivial);
        self.outcomes.extend(o.outcomes);
        for s in o.samples {
            if self.samples.len() < 2 {
                self.samples.push(s);
            }
        }
        self.known.extend(o.known);
    }
}

static KNOWN: std::sync::OnceLock<(BTreeSet<String>, BTreeMap<String, String>)> = std::sync::OnceLock::new();
pub fn load_known(path: &str) {
    let mut ids = BTreeSet::new();
    let mut desc = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
        for k in v["known"].as_array().cloned().unwrap_or_default() {
            let id = k["id"].as_str().unwrap().to_string();
            desc.insert(id.clone(), k["what"].as_str().unwrap_or("").to_string());
            ids.insert(id);
        }
    }
    let _ = KNOWN.set((ids, desc));
}
fn known_ids() -> &'static BTreeSet<String> {
    &KNOWN.get_or_init(Default::default).0
}
pub fn known_desc(id: &str) -> String {
    KNOWN.get_or_init(Default::default).1.get(id).cloned().unwrap_or_default()
}

pub trait Family: Send + Sync {
    fn name(&self) -> String;
    fn bounds(&self) -> String;
    /// explore everything; report violations through the shared sink
    fn explore(&self, sh: &Shared) -> Ctx;
    fn replay(&self, case: &[u64], cx: &mut Ctx) -> R;
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub case: Vec<u64>,
    pub what: String,
}

pub struct Shared {
    pub property: String,
    pub thorough: bool,
    pub workers: usize,
    pub violations: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub slots: Vec<Mutex<Option<(Instant, String, Vec<u64>)>>>,
}

impl Shared {
    pub fn new(property: &str, thorough: bool, workers: usize) -> Arc<Self> {
        Arc::new(Shared {
            property: property.into(),
            thorough,
            workers,
            violations: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            slots: (0..workers).map(|_| Mutex::new(None)).collect(),
        })
    }
    pub fn report(&self, v: Violation) {
        self.violations.lock().unwrap().push(v);
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Run, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("crash: {}", last_panic()))
}

/// Run `f` over 0..total on all workers, with watchdog slots; lowest failing index wins.
pub fn par_cases(sh: &Shared, name: &str, total: u64, case_of: impl Fn(u64) -> Vec<u64> + Sync, f: impl Fn(u64, &mut Ctx) -> R + Sync) -> Ctx {
    let next = AtomicU64::new(0);
    let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let limit = AtomicU64::new(u64::MAX);
    let chunk = (total / (sh.workers as u64 * 64)).clamp(1, 256);
    let mut all = Ctx::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..sh.workers)
            .map(|w| {
                let (next, best, limit, f, case_of) = (&next, &best, &limit, &f, &case_of);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut cx = Ctx { thorough: sh.thorough, ..Default::default() };
                        'o: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= total {
                                break;
                            }
                            for i in a..(a + chunk).min(total) {
                                if i > limit.load(Ordering::Relaxed) {
                                    break 'o;
                                }
                                *sh.slots[w].lock().unwrap() = Some((Instant::now(), name.to_string(), case_of(i)));
                                let r = guarded(|| f(i, &mut cx)).and_then(|r| r);
                                *sh.slots[w].lock().unwrap() = None;
                                cx.evaluations += 1;
                                if let Err(e) = r {
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |(j, _)| i < *j) {
                                        *b = Some((i, e));
                                        limit.fetch_min(i, Ordering::SeqCst);
                                    }
                                    break 'o;
                                }
                            }
                        }
                        cx
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            all.merge(h.join().unwrap());
        }
    });
    if let Some((i, e)) = best.into_inner().unwrap() {
        sh.report(Violation { family: name.into(), case: case_of(i), what: e });
    }
    all
}

type CaseFn = Box<dyn Fn(u64, &mut Ctx) -> R + Send + Sync>;
/// A family whose cases are numbered 0..total.
pub struct Indexed {
    name: String,
    bounds: String,
    total: u64,
    f: CaseFn,
}
impl Family for Indexed {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bounds(&self) -> String {
        self.bounds.clone()
    }
    fn explore(&self, sh: &Shared) -> Ctx {
        par_cases(sh, &self.name, self.total, |i| vec![i], |i, cx| (self.f)(i, cx))
    }
    fn replay(&self, case: &[u64], cx: &mut Ctx) -> R {
        guarded(|| (self.f)(case[0], cx)).and_then(|r| r)
    }
}
pub fn fam(name: &str, bounds: &str, total: u64, f: impl Fn(u64, &mut Ctx) -> R + Send + Sync + 'static) -> Box<dyn Family> {
    Box::new(Indexed { name: name.into(), bounds: format!("{bounds} [{total} cases]"), total, f: Box::new(f) })
}

/// Decode a mixed-radix index, least significant digit first.
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    radices
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d as usize
        })
        .collect()
}
pub fn product(radices: &[u64]) -> u64 {
    radices.iter().product()
}

/// All subsets of size <= k of 0..n, in order of size.
pub fn subsets_upto(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &level {
            let from = s.last().map_or(0, |l| l + 1);
            for x in from..n {
                let mut t = s.clone();
                t.push(x);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, left: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            let x = left.remove(i);
            cur.push(x);
            go(cur, left, out);
            cur.pop();
            left.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut (0..n).collect(), &mut out);
    out
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

pub struct RunCfg {
    pub property: String,
    pub level: String,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub tier: String,
    pub seed: i64,
    pub evidence: String,
    pub replay_dir: String,
}

fn write_replay(cfg: &RunCfg, v: &Violation) -> String {
    let _ = std::fs::create_dir_all(&cfg.replay_dir);
    let path = format!("{}/{}-{}.json", cfg.replay_dir, cfg.property, cfg.tier);
    let j = serde_json::json!({
        "property": cfg.property, "tier": cfg.tier, "family": v.family, "case": v.case, "what": v.what,
        "replay": format!("bash check.sh replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn write_evidence(cfg: &RunCfg, total: &Ctx, fams: &[serde_json::Value], violations: usize, wall: f64, exhaustive: bool) {
    let mut cov = serde_json::Map::new();
    if cfg.level == "model_checking" {
        cov.insert("states".into(), total.states.len().into());
        cov.insert("transitions".into(), total.transitions.into());
        cov.insert("traces_validated_against_impl".into(), total.evaluations.into());
    } else {
        cov.insert("evaluations".into(), total.evaluations.into());
        cov.insert("distinct_nontrivial".into(), total.nontrivial.len().into());
        cov.insert("rule".into(), cfg.rule.clone().into());
        cov.insert("implementation_calls".into(), total.transitions.into());
        if !total.states.is_empty() {
            cov.insert("distinct_states".into(), total.states.len().into());
        }
    }
    cov.insert("distinct_outcomes".into(), total.outcomes.len().into());
    cov.insert("samples".into(), total.samples.clone().into());
    cov.insert("families".into(), fams.to_vec().into());
    cov.insert("exhaustive".into(), exhaustive.into());
    cov.insert("how".into(), cfg.rule.clone().into());
    let j = serde_json::json!({
        "property": cfg.property, "tier": cfg.tier, "seed": cfg.seed, "level": cfg.level,
        "coverage": cov, "assumptions": cfg.assumptions, "wall_s": wall, "violations": violations,
    });
    if let Some(d) = std::path::Path::new(&cfg.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&cfg.evidence, serde_json::to_string_pretty(&j).unwrap() + "\n").expect("harness: cannot write evidence");
}

/// Run all families of a property. Returns the exit code.
pub fn run(cfg: RunCfg, families: Vec<Box<dyn Family>>) -> i32 {
    let start = Instant::now();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let sh = Shared::new(&cfg.property, cfg.tier == "thorough", workers);
    let cfg = Arc::new(cfg);
    // watchdog: a case that does not come back (or eats all memory) is a violation of termination
    {
        let (sh, cfg) = (sh.clone(), cfg.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let oom = rss_bytes() > 14 << 30;
            let mut worst: Option<(Instant, String, Vec<u64>)> = None;
            for s in &sh.slots {
                let Ok(g) = s.try_lock() else { continue };
                if let Some((t, f, c)) = g.as_ref() {
                    if worst.as_ref().map_or(true, |w| *t < w.0) {
                        worst = Some((*t, f.clone(), c.clone()));
                    }
                }
            }
            if let Some((t, f, c)) = worst {
                if t.elapsed() > Duration::from_secs(90) || oom {
                    let why = if oom { "exhausts memory" } else { "does not terminate" };
                    let v = Violation { family: f, case: c, what: format!("case {why} after {:?}", t.elapsed()) };
                    let path = write_replay(&cfg, &v);
                    write_evidence(&cfg, &Ctx::default(), &[], 1, start.elapsed().as_secs_f64(), false);
                    println!("{}: {} {:?}: {}", cfg.property, v.family, v.case, v.what);
                    println!("VIOLATION property={} replay={}", cfg.property, path);
                    std::process::exit(1);
                }
            }
        });
    }
    let mut total = Ctx::default();
    let mut fams = vec![];
    for f in &families {
        let t = Instant::now();
        let mut cx = f.explore(&sh);
        let ok = !sh.stopped();
        println!(
            "{} {:<28} cases={} states={} transitions={} nontrivial={} outcomes={} {:.2}s{}",
            cfg.property, f.name(), cx.evaluations, cx.states.len(), cx.transitions, cx.nontrivial.len(), cx.outcomes.len(),
            t.elapsed().as_secs_f64(), if ok { "" } else { "  VIOLATED" }
        );
        fams.push(serde_json::json!({
            "family": f.name(), "bounds": f.bounds(), "cases": cx.evaluations, "states": cx.states.len(),
            "transitions": cx.transitions, "nontrivial": cx.nontrivial.len(), "outcomes": cx.outcomes.len(), "completed": ok,
            "samples": cx.samples.clone(),
        }));
        let samples = std::mem::take(&mut cx.samples);
        total.merge(cx);
        total.samples.extend(samples.into_iter().take(1).map(|s| format!("{}: {s}", f.name())));
        if !ok {
            break;
        }
    }
    total.samples.truncate(24);
    let wall = start.elapsed().as_secs_f64();
    for (id, msg) in &total.known {
        println!("KNOWN-FINDING: property={} {} ({})", cfg.property, known_desc(id), msg);
    }
    let vs = sh.violations.lock().unwrap().clone();
    write_evidence(&cfg, &total, &fams, vs.len(), wall, vs.is_empty());
    if let Some(v) = vs.first() {
        let path = write_replay(&cfg, v);
        println!("{}: {} {:?}: {}", cfg.property, v.family, v.case, v.what);
        println!("VIOLATION property={} replay={}", cfg.property, path);
        return 1;
    }
    println!("{} held: {} cases, {} states, {} transitions in {:.1}s", cfg.property, total.evaluations, total.states.len(), total.transitions, wall);
    0
}

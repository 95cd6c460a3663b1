//! Runs the sub-checks of a property over generated cases, shrinks a failure, writes the replay
//! file and the evidence. The checks run in a child process: if the code under test kills the
//! process (stack overflow, abort) or makes no progress, the parent reports the case in hand.

use crate::src_choice::{shrink, Src};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static> Case for T {}

/// What a passing case was: its class (for the histogram) and whether it was non-trivial.
pub struct Pass {
    pub nontrivial: bool,
    pub class: String,
}

pub fn pass(nontrivial: bool, class: impl Into<String>) -> Res {
    Ok(Pass {
        nontrivial,
        class: class.into(),
    })
}

/// Err(message) = the property does not hold for this case.
pub type Res = Result<Pass, String>;

/// The harness itself could not do its work (never a violation).
#[derive(Debug)]
pub struct HarnessError(pub String);

pub fn harness_error(msg: impl Into<String>) -> ! {
    std::panic::panic_any(HarnessError(msg.into()))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct SubStats {
    name: String,
    evaluations: usize,
    distinct_nontrivial: usize,
    classes: BTreeMap<String, usize>,
    samples: Vec<Value>,
    wall_s: f64,
    rule: String,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    threads: usize,
    replay: Option<(String, Value)>,
    only: Option<String>,
    scale: f64,
    subs: Vec<SubStats>,
    failure: Option<(String, Value, String)>, // sub, case, message
    work: PathBuf,
    limit: Duration,
    exploratory: bool,
    pub known: Vec<Known>,
    known_hits: BTreeMap<String, usize>,
}

/// A recorded finding: failures of `sub` whose message contains `signature` are that finding.
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sub: String,
    pub signature: String,
    pub what: String,
}

fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

static CUR_START: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

/// Time the check has run, in ms. It is counted by the watch in steps of at most a second, so that
/// the machine may stand still for a while without a case seeming to hang.
static RUN_MS: AtomicU64 = AtomicU64::new(1);

fn now_ms() -> u64 {
    RUN_MS.load(Ordering::SeqCst)
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = loc);
        } else {
            default(info)
        }
    }));
}

/// Runs `f`; a panic of the code under test becomes Err.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.downcast_ref::<HarnessError>().is_some() {
                std::panic::resume_unwind(e);
            }
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("panic{}: {}", loc, m))
        }
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    fn eval<C: Case>(&self, test: &(dyn Fn(&C) -> Res + Sync), case: &C) -> Res {
        match no_panic(|| test(case)) {
            Ok(r) => r,
            Err(e) => Err(e),
        }
    }

    /// One sub-check: `quick`/`thorough` cases from `gen`, each decided by `test`.
    pub fn sub<C: Case>(
        &mut self,
        name: &str,
        rule: &str,
        quick: usize,
        thorough: usize,
        gen: impl Fn(&mut Src) -> C + Sync,
        test: impl Fn(&C) -> Res + Sync,
    ) {
        self.sub_t(name, rule, quick, thorough, None, gen, test)
    }

    /// As `sub`, with at most `max_threads` threads.
    pub fn sub_t<C: Case>(
        &mut self,
        name: &str,
        rule: &str,
        quick: usize,
        thorough: usize,
        max_threads: Option<usize>,
        gen: impl Fn(&mut Src) -> C + Sync,
        test: impl Fn(&C) -> Res + Sync,
    ) {
        if self.failure.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        if let Some((sub, v)) = &self.replay {
            if sub != name {
                return;
            }
            let case: C = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                Err(e) => harness_error(format!("cannot read the replay case: {e}")),
            };
            let _ = std::fs::write(self.work.join("cur-0"), format!("{name}\n{v}"));
            CUR_START[0].store(now_ms(), Ordering::SeqCst);
            let r = self.eval(&test, &case);
            CUR_START[0].store(0, Ordering::SeqCst);
            self.exploratory = true;
            if let Err(m) = r {
                self.failure = Some((name.into(), v.clone(), m));
            }
            return;
        }
        let n = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let n = ((n as f64) * self.scale).ceil() as usize;
        let slow: Option<u64> = std::env::var("VH_SLOW").ok().and_then(|s| s.parse().ok());
        let t0 = Instant::now();
        let threads = self.threads.min(max_threads.unwrap_or(64)).max(1);
        let first_fail = AtomicUsize::new(usize::MAX);
        let stats = Mutex::new((SubStats::default(), HashSet::<u64>::new()));
        let fails: Mutex<BTreeMap<usize, (Vec<u64>, String)>> = Mutex::new(BTreeMap::new());
        let known_hits: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
        let next = AtomicUsize::new(0);
        let herr: Mutex<Option<String>> = Mutex::new(None);
        let known: Vec<Known> = self
            .known
            .iter()
            .filter(|k| k.sub == name)
            .cloned()
            .collect();
        std::thread::scope(|s| {
            for t in 0..threads {
                let (gen, test, stats, fails, first_fail, next, this) =
                    (&gen, &test, &stats, &fails, &first_fail, &next, &*self);
                let (herr, known, known_hits) = (&herr, &known, &known_hits);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let cur = this.work.join(format!("cur-{t}"));
                        let mut local = SubStats::default();
                        let mut seen: HashSet<u64> = HashSet::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > first_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            let seed = this
                                .seed
                                .wrapping_mul(0x1000003)
                                .wrapping_add(hash_of(&format!("{}/{}", this.property, name)))
                                .wrapping_add((i as u64).wrapping_mul(0x9E3779B97F4A7C15));
                            let mut src = Src::random(seed);
                            let case = gen(&mut src);
                            let text = serde_json::to_string(&case).unwrap();
                            let _ = std::fs::write(&cur, format!("{name}\n{text}"));
                            CUR_START[t].store(now_ms(), Ordering::SeqCst);
                            let r = catch_unwind(AssertUnwindSafe(|| this.eval(test, &case)));
                            let took = now_ms() - CUR_START[t].swap(0, Ordering::SeqCst);
                            if slow.is_some_and(|s| took > s) {
                                eprintln!("[{}/{}] case {} takes {} ms: {:.300}", this.property, name, i, took, text);
                            }
                            let r = match r {
                                Ok(r) => r,
                                Err(e) => {
                                    let m = e
                                        .downcast_ref::<HarnessError>()
                                        .map(|h| h.0.clone())
                                        .unwrap_or("harness panic".into());
                                    *herr.lock().unwrap() = Some(m);
                                    first_fail.store(0, Ordering::SeqCst);
                                    break;
                                }
                            };
                            local.evaluations += 1;
                            match r {
                                Ok(p) => {
                                    *local.classes.entry(p.class).or_default() += 1;
                                    if p.nontrivial && seen.insert(hash_of(&text)) {
                                        if local.samples.len() < 2 && text.len() < 3000 {
                                            local.samples.push(serde_json::to_value(&case).unwrap());
                                        }
                                    }
                                }
                                Err(m) => {
                                    if let Some(k) =
                                        known.iter().find(|k| m.contains(&k.signature))
                                    {
                                        *known_hits
                                            .lock()
                                            .unwrap()
                                            .entry(k.what.clone())
                                            .or_default() += 1;
                                        *local.classes.entry("known-finding".into()).or_default() +=
                                            1;
                                        continue;
                                    }
                                    first_fail.fetch_min(i, Ordering::SeqCst);
                                    fails.lock().unwrap().insert(i, (src.trace, m));
                                    break;
                                }
                            }
                        }
                        let _ = std::fs::remove_file(&cur);
                        let mut g = stats.lock().unwrap();
                        g.0.evaluations += local.evaluations;
                        for (k, v) in local.classes {
                            *g.0.classes.entry(k).or_default() += v;
                        }
                        if g.0.samples.len() < 3 {
                            g.0.samples.append(&mut local.samples);
                            g.0.samples.truncate(3);
                        }
                        g.1.extend(seen);
                    })
                    .unwrap();
            }
        });
        if let Some(m) = herr.into_inner().unwrap() {
            harness_error(m);
        }
        let (mut st, seen) = stats.into_inner().unwrap();
        st.name = name.into();
        st.rule = rule.into();
        st.distinct_nontrivial = seen.len();
        for (k, v) in known_hits.into_inner().unwrap() {
            *self.known_hits.entry(k).or_default() += v;
        }
        let first = fails.into_inner().unwrap().into_iter().next();
        if let Some((i, (trace, msg))) = first {
            eprintln!("[{}/{}] case {} fails: {}", self.property, name, i, first_line(&msg));
            // shrink
            let deadline = Instant::now() + Duration::from_secs(40);
            let cur = self.work.join("cur-0");
            let best = shrink(trace, 4000, |cand| {
                if Instant::now() > deadline {
                    return None;
                }
                let mut src = Src::replay(cand);
                let case = gen(&mut src);
                let text = serde_json::to_string(&case).unwrap();
                let _ = std::fs::write(&cur, format!("{name}\n{text}"));
                CUR_START[0].store(now_ms(), Ordering::SeqCst);
                let r = self.eval(&test, &case);
                CUR_START[0].store(0, Ordering::SeqCst);
                match r {
                    Err(m) if !known.iter().any(|k| m.contains(&k.signature)) => Some(src.trace),
                    _ => None,
                }
            });
            let _ = std::fs::remove_file(&cur);
            let mut src = Src::replay(best);
            let case = gen(&mut src);
            let m = match self.eval(&test, &case) {
                Err(m) => m,
                Ok(_) => format!("{msg} (only before shrinking)"),
            };
            self.failure = Some((name.into(), serde_json::to_value(&case).unwrap(), m));
        }
        st.wall_s = t0.elapsed().as_secs_f64();
        self.subs.push(st);
    }
}

fn first_line(s: &str) -> String {
    let l: String = s.lines().take(6).collect::<Vec<_>>().join(" | ");
    l.chars().take(600).collect()
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Seconds after which a single case counts as not terminating.
    pub limit_s: u64,
    pub run: fn(&mut Ctx),
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or("/verif".into()))
}

fn write_replay(prop: &str, sub: &str, case: &Value, msg: &str) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string(case).unwrap();
    let path = dir.join(format!("{prop}-{sub}-{:08x}.json", hash_of(&text) as u32));
    let v = json!({"property": prop, "sub": sub, "message": msg, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn load_known(prop: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(verif().join("known-findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["status"] == "open" && v["property"] == prop)
        .map(|v| Known {
            property: prop.into(),
            sub: v["sub"].as_str().unwrap_or("").into(),
            signature: v["signature"].as_str().unwrap_or("\u{0}never").into(),
            what: v["what"].as_str().unwrap_or("").into(),
        })
        .collect()
}

/// Entry point of the check binaries. Usage: bin ID [--replay FILE]
pub fn main_with(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    if std::env::var("VH_CHILD").is_ok() {
        child(prop, &args)
    } else {
        parent(prop, &args)
    }
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn child(prop: &Prop, args: &[String]) -> ! {
    install_hook();
    let work = PathBuf::from(std::env::var("VH_WORK").unwrap());
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let s = std::fs::read_to_string(&args[i + 1]).unwrap();
        let v: Value = serde_json::from_str(&s).unwrap();
        (v["sub"].as_str().unwrap().to_string(), v["case"].clone())
    });
    let mut ctx = Ctx {
        property: prop.id.into(),
        tier: tier(),
        seed: seed(),
        threads: std::env::var("VH_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(8),
        only: std::env::var("VH_ONLY").ok(),
        scale: std::env::var("VH_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0),
        replay,
        subs: vec![],
        failure: None,
        work: work.clone(),
        limit: Duration::from_secs(prop.limit_s),
        exploratory: false,
        known: load_known(prop.id),
        known_hits: BTreeMap::new(),
    };
    let t0 = Instant::now();
    let limit = ctx.limit.as_millis() as u64;
    static DONE: AtomicBool = AtomicBool::new(false);
    let w = work.clone();
    std::thread::spawn(move || loop {
        let t0 = Instant::now();
        std::thread::sleep(Duration::from_millis(200));
        RUN_MS.fetch_add((t0.elapsed().as_millis() as u64).min(1000), Ordering::SeqCst);
        if DONE.load(Ordering::SeqCst) {
            return;
        }
        for (t, c) in CUR_START.iter().enumerate() {
            let s = c.load(Ordering::SeqCst);
            if s != 0 && now_ms().saturating_sub(s) > limit {
                let _ = std::fs::write(w.join("hang"), format!("{t}"));
                unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
            }
        }
    });
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
    DONE.store(true, Ordering::SeqCst);
    if let Err(e) = r {
        let m = e
            .downcast_ref::<HarnessError>()
            .map(|h| h.0.clone())
            .unwrap_or("harness panic".into());
        eprintln!("harness error: {m}");
        std::process::exit(2);
    }
    let evaluations: usize = ctx.subs.iter().map(|s| s.evaluations).sum();
    let distinct: usize = ctx.subs.iter().map(|s| s.distinct_nontrivial).sum();
    let mut samples: Vec<Value> = vec![];
    for s in &ctx.subs {
        for c in &s.samples {
            samples.push(json!({"sub": s.name, "case": c}));
        }
    }
    let subs: Vec<Value> = ctx
        .subs
        .iter()
        .map(|s| {
            json!({"name": s.name, "rule": s.rule, "evaluations": s.evaluations,
            "distinct_nontrivial": s.distinct_nontrivial, "classes": s.classes, "wall_s": s.wall_s})
        })
        .collect();
    let out = json!({
        "evaluations": evaluations, "distinct_nontrivial": distinct, "samples": samples,
        "subs": subs, "wall_s": t0.elapsed().as_secs_f64(),
        "failure": ctx.failure, "known_hits": ctx.known_hits,
    });
    std::fs::write(work.join("result.json"), out.to_string()).unwrap();
    // Leave without running destructors of other threads.
    std::process::exit(0);
}

fn run_child(args: &[String], work: &Path, extra: &[&str], cap: Duration) -> Option<std::process::ExitStatus> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(&args[1]);
    c.args(extra);
    // The code under test may print; the verdict is the parent's.
    c.env("VH_CHILD", "1").env("VH_WORK", work).stdout(std::process::Stdio::null());
    let mut ch = c.spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(s) => return Some(s),
            None => {
                if t0.elapsed() > cap {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
    }
}

fn parent(prop: &Prop, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let base = PathBuf::from(std::env::var("VH_TMP").unwrap_or("/tmp".into()));
    let work = base.join(format!("vh-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let cleanup = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&work);
        std::process::exit(code)
    };
    let t0 = Instant::now();
    let replaying = args.iter().any(|a| a == "--replay");
    let extra: Vec<&str> = args.iter().skip(2).map(|s| s.as_str()).collect();
    let cap = Duration::from_secs(if tier() == Tier::Quick { 820 } else { 6 * 3600 });
    let mut status = run_child(args, &work, &extra, cap);
    let mut failure: Option<(String, Value, String)> = None;
    let mut result = json!({"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "subs": [], "known_hits": {}});
    let mut again = true;
    loop {
        match status {
            None => {
                eprintln!("the check did not finish in time");
                cleanup(3)
            }
            Some(s) if s.success() => {
                let r = std::fs::read_to_string(work.join("result.json")).unwrap();
                result = serde_json::from_str(&r).unwrap();
                if !result["failure"].is_null() {
                    failure = serde_json::from_value(result["failure"].clone()).ok();
                }
            }
            Some(s) if s.signal().is_some() => {
                // The code under test ended the process or a case made no progress: find the case.
                eprintln!("child ended by signal {:?}", s.signal());
                let mut found = None;
                let mut curs: Vec<PathBuf> = std::fs::read_dir(&work)
                    .unwrap()
                    .filter_map(|e| e.ok().map(|e| e.path()))
                    .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("cur-"))
                    .collect();
                if let Ok(t) = std::fs::read_to_string(work.join("hang")) {
                    let first = work.join(format!("cur-{t}"));
                    curs.sort_by_key(|p| *p != first);
                }
                for c in curs {
                    let Ok(t) = std::fs::read_to_string(&c) else { continue };
                    let Some((sub, text)) = t.split_once('\n') else { continue };
                    let Ok(case) = serde_json::from_str::<Value>(text) else { continue };
                    if let Some(m) = crash_of(prop, args, &work, sub, &case) {
                        found = Some((sub.to_string(), case, m));
                        break;
                    }
                }
                match found {
                    Some((sub, case, m)) => {
                        let case = shrink_crash(prop, args, &work, &sub, case, &m);
                        failure = Some((sub, case, m))
                    }
                    None if again => {
                        eprintln!("no single case reproduces it; once more");
                        again = false;
                        let _ = std::fs::remove_file(work.join("hang"));
                        status = run_child(args, &work, &extra, cap.saturating_sub(t0.elapsed()));
                        continue;
                    }
                    None => {
                        eprintln!("no single case reproduces it");
                        cleanup(3)
                    }
                }
            }
            Some(s) => {
                eprintln!("check error, exit {:?}", s.code());
                cleanup(2)
            }
        }
        break;
    }
    let known: Vec<Known> = load_known(prop.id);
    if let Some((sub, _, m)) = &failure {
        if !replaying && known.iter().any(|k| &k.sub == sub && m.contains(&k.signature)) {
            failure = None;
        }
    }
    let mut coverage = json!({
        "evaluations": result["evaluations"],
        "distinct_nontrivial": result["distinct_nontrivial"],
        "rule": prop.rule,
        "samples": result["samples"],
        "sub_checks": result["subs"],
    });
    if let Some(kh) = result["known_hits"].as_object() {
        if !kh.is_empty() {
            coverage["known_finding_hits"] = json!(kh);
        }
    }
    if !replaying {
        let evid = json!({
            "property": prop.id,
            "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
            "seed": seed(),
            "level": "exploration",
            "coverage": coverage,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": if failure.is_some() { 1 } else { 0 },
        });
        let dir = verif().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(
            dir.join(format!("{}.json", prop.id)),
            serde_json::to_string_pretty(&evid).unwrap(),
        )
        .unwrap();
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    match failure {
        Some((sub, case, m)) => {
            let path = if replaying {
                PathBuf::from(args.last().unwrap())
            } else {
                write_replay(prop.id, &sub, &case, &m)
            };
            println!("sub-check: {sub}");
            let shown: String = case.to_string().chars().take(1500).collect();
            println!("case: {shown}");
            let shown: String = m.chars().take(3000).collect();
            println!("failure: {shown}");
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            cleanup(1)
        }
        None => {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s",
                prop.id, result["evaluations"], result["distinct_nontrivial"],
                t0.elapsed().as_secs_f64()
            );
            cleanup(0)
        }
    }
}

/// Replays one case in a fresh child; Some(message) if it kills the process or never ends.
fn crash_of(prop: &Prop, args: &[String], work: &Path, sub: &str, case: &Value) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let dir = work.join("crash");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("case.json");
    std::fs::write(&f, json!({"sub": sub, "case": case}).to_string()).unwrap();
    let fs = f.to_string_lossy().to_string();
    let s = run_child(args, &dir, &["--replay", &fs], Duration::from_secs(prop.limit_s + 30))?;
    if dir.join("hang").exists() {
        return Some(format!("no result within {} s", prop.limit_s));
    }
    s.signal().map(|n| {
        let n = match n {
            6 => "SIGABRT (abort or stack overflow)".to_string(),
            9 => "SIGKILL".to_string(),
            11 => "SIGSEGV".to_string(),
            n => format!("signal {n}"),
        };
        format!("the process is killed by {n}")
    })
}

/// Shortens the long strings of a crashing case, as long as it keeps crashing.
fn shrink_crash(prop: &Prop, args: &[String], work: &Path, sub: &str, case: Value, m: &str) -> Value {
    if m.starts_with("no result") {
        return case;
    }
    let t0 = Instant::now();
    let mut best = case;
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(60) {
        progress = false;
        for cand in string_cuts(&best) {
            if t0.elapsed() > Duration::from_secs(60) {
                break;
            }
            if crash_of(prop, args, work, sub, &cand).is_some() {
                best = cand;
                progress = true;
                break;
            }
        }
    }
    best
}

fn string_cuts(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::String(s) => {
            let cs: Vec<char> = s.chars().collect();
            let mut k = cs.len() / 2;
            while k >= 1 {
                out.push(Value::String(cs[k..].iter().collect()));
                out.push(Value::String(cs[..cs.len() - k].iter().collect()));
                if k < 8 {
                    break;
                }
                k /= 4;
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b));
            }
            for (i, x) in a.iter().enumerate() {
                for c in string_cuts(x) {
                    let mut b = a.clone();
                    b[i] = c;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                for c in string_cuts(x) {
                    let mut b = o.clone();
                    b.insert(k.clone(), c);
                    out.push(Value::Object(b));
                }
            }
        }
        _ => {}
    }
    out
}

/// A path of this thread, in the work directory of the check.
pub fn scratch(name: &str) -> std::path::PathBuf {
    let base = std::path::PathBuf::from(std::env::var("VH_WORK").unwrap_or("/tmp".into()));
    let t = format!("{:?}", std::thread::current().id());
    let t: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    let d = base.join(format!("t{t}"));
    let _ = std::fs::create_dir_all(&d);
    d.join(name)
}

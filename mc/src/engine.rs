//! Exhaustive breadth-first exploration with a supervised worker process.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check of one state reports back besides pass/fail.
#[derive(Default, Clone)]
pub struct Info {
    /// real-code results compared with the reference model
    pub compared: u64,
}
pub struct Fail {
    pub msg: String,
}
pub type Check = Result<Info, Fail>;
pub fn fail<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: m.into() })
}
pub fn ok(n: u64) -> Check {
    Ok(Info { compared: n })
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    /// initial states with the number of transitions to explore from each
    fn roots(&self, tier: Tier) -> Vec<(Self::S, usize)>;
    fn succ(&self, s: &Self::S, out: &mut Vec<Self::S>);
    /// complete, replayable description of what is executed in this state
    fn key(&self, s: &Self::S) -> String;
    /// extra identity used for deduplication of exploration (not of checks)
    fn salt(&self, _s: &Self::S) -> u64 {
        0
    }
    fn check(&self, key: &str) -> Check;
    fn bounds(&self, tier: Tier) -> String;
    fn level(&self) -> &'static str {
        "model_checking"
    }
    /// single-threaded models (global effects such as fd capture)
    fn serial(&self) -> bool {
        false
    }
}

fn h128(s: &str) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    0x9e3779b97f4a7c15u64.hash(&mut b);
    s.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", m.lines().next().unwrap_or(""), l));
    }));
}

/// Run code of the subject; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

// -- shared slots -----------------------------------------------------------------------------
const SLOT: usize = 512 * 1024;
pub struct Slots {
    base: *mut u8,
    n: usize,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn create(path: &Path, n: usize) -> Slots {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
        f.set_len((n * SLOT) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Slots { base: p as *mut u8, n }
    }
    fn put(&self, i: usize, k: &str) {
        let b = k.as_bytes();
        let l = b.len().min(SLOT - 8);
        unsafe {
            let p = self.base.add(i * SLOT);
            std::ptr::write_volatile(p as *mut u64, 0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), l);
            std::ptr::write_volatile(p as *mut u64, l as u64);
        }
    }
    fn clear(&self, i: usize) {
        unsafe { std::ptr::write_volatile(self.base.add(i * SLOT) as *mut u64, 0) }
    }
    pub fn read_file(path: &Path) -> Vec<String> {
        let Ok(b) = std::fs::read(path) else { return vec![] };
        b.chunks(SLOT)
            .filter_map(|c| {
                let l = u64::from_le_bytes(c[..8].try_into().ok()?) as usize;
                (l > 0 && l <= SLOT - 8).then(|| String::from_utf8_lossy(&c[8..8 + l]).to_string())
            })
            .collect()
    }
}

pub struct Cfg {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
    pub hang_s: u64,
    pub threads: usize,
    pub known: Vec<Known>,
}

struct Shared {
    states: Vec<Mutex<HashSet<u128>>>,
    /// how many more steps were taken from the state when it was last reached with more than before
    seen: Vec<Mutex<HashMap<u128, usize>>>,
    transitions: AtomicU64,
    compared: AtomicU64,
    checked: AtomicU64,
    viol: Mutex<Vec<(String, String)>>,
    classes: Mutex<HashMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    stop: AtomicBool,
    known: Vec<AtomicU64>,
}

pub const MAX_VIOL: usize = 400;

/// Runs in the worker process. Writes result.json in the scratch directory.
pub fn explore<M: Model>(m: &M, cfg: &Cfg) {
    install_panic_hook();
    let harness = |f: &mut dyn FnMut()| {
        if let Err(p) = guard(f) {
            eprintln!("harness: {p}");
            std::process::exit(3);
        }
    };
    let mut roots = vec![];
    harness(&mut || roots = m.roots(cfg.tier));
    let t0 = Instant::now();
    let nthr = if m.serial() { 1 } else { cfg.threads };
    let slots = Slots::create(&cfg.scratch.join("slots"), nthr);
    let started: Vec<AtomicU64> = (0..slots.n).map(|_| AtomicU64::new(0)).collect();
    let sh = Shared {
        states: (0..256).map(|_| Mutex::new(HashSet::new())).collect(),
        seen: (0..256).map(|_| Mutex::new(HashMap::new())).collect(),
        transitions: AtomicU64::new(0),
        compared: AtomicU64::new(0),
        checked: AtomicU64::new(0),
        viol: Mutex::new(vec![]),
        classes: Mutex::new(HashMap::new()),
        samples: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        known: cfg.known.iter().map(|_| AtomicU64::new(0)).collect(),
    };
    let done = AtomicBool::new(false);
    let mut by_depth: Vec<u64> = vec![];
    let now = || t0.elapsed().as_millis() as u64 + 1;
    // visit: check the state once; returns true if it is to be explored: reached for the first time, or with more
    // steps left than before
    let visit0 = |w: usize, s: &M::S, left: usize| -> bool {
        let key = m.key(s);
        let hk = h128(&key);
        let hs = h128(&format!("{:x}/{}", hk, m.salt(s)));
        {
            let mut seen = sh.seen[(hs % 256) as usize].lock().unwrap();
            match seen.get_mut(&hs) {
                Some(l) if *l >= left => return false,
                Some(l) => *l = left,
                None => {
                    seen.insert(hs, left);
                }
            }
        }
        if !sh.states[(hk % 256) as usize].lock().unwrap().insert(hk) {
            return true;
        }
        slots.put(w, &key);
        started[w].store(now(), Relaxed);
        let r = guard(|| m.check(&key));
        started[w].store(0, Relaxed);
        slots.clear(w);
        let n = sh.checked.fetch_add(1, Relaxed);
        if n < 3 || (n & (n - 1)) == 0 {
            let mut sm = sh.samples.lock().unwrap();
            if sm.len() < 24 {
                sm.push(key.chars().take(600).collect())
            }
        }
        let msg = match r {
            Ok(Ok(i)) => {
                sh.compared.fetch_add(i.compared, Relaxed);
                return true;
            }
            Ok(Err(f)) => f.msg,
            Err(p) => p,
        };
        if !cfg.known.is_empty() {
            let d = format!("{key} => {msg}");
            let mut is_known = false;
            for (i, kf) in cfg.known.iter().enumerate() {
                if kf.property == cfg.id && d.contains(&kf.pattern) {
                    sh.known[i].fetch_add(1, Relaxed);
                    is_known = true;
                }
            }
            if is_known {
                return true;
            }
        }
        let mut v = sh.viol.lock().unwrap();
        let cls = class_of(&msg);
        *sh.classes.lock().unwrap().entry(cls).or_insert(0) += 1;
        if v.len() < MAX_VIOL {
            v.push((key, msg));
        } else {
            sh.stop.store(true, Relaxed);
        }
        true
    };
    let visit = |w: usize, s: &M::S, left: usize| -> bool {
        match guard(|| visit0(w, s, left)) {
            Ok(b) => b,
            Err(p) => {
                eprintln!("harness: {p}");
                std::process::exit(3);
            }
        }
    };
    std::thread::scope(|sc| {
        sc.spawn(|| {
            // watchdog
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for st in &started {
                    let s = st.load(Relaxed);
                    if s != 0 && now() > s + cfg.hang_s * 1000 {
                        std::process::exit(77);
                    }
                }
            }
        });
        let mut frontier: Vec<(M::S, usize)> = roots;
        frontier.sort_by_key(|(_, d)| std::cmp::Reverse(*d));
        by_depth.push(frontier.len() as u64);
        {
            // check the roots
            let idx = AtomicUsize::new(0);
            let keep = Mutex::new(vec![]);
            std::thread::scope(|s2| {
                for w in 0..slots.n {
                    let (idx, keep, frontier, visit) = (&idx, &keep, &frontier, &visit);
                    s2.spawn(move || loop {
                        let i = idx.fetch_add(1, Relaxed);
                        if i >= frontier.len() {
                            break;
                        }
                        if visit(w, &frontier[i].0, frontier[i].1) {
                            keep.lock().unwrap().push(i);
                        }
                    });
                }
            });
            let mut k = keep.into_inner().unwrap();
            k.sort();
            let mut f2 = vec![];
            for i in k {
                f2.push(frontier[i].clone())
            }
            frontier = f2;
        }
        while !frontier.is_empty() && !sh.stop.load(Relaxed) {
            let idx = AtomicUsize::new(0);
            let next: Mutex<Vec<(M::S, usize)>> = Mutex::new(vec![]);
            let newc = AtomicU64::new(0);
            std::thread::scope(|s2| {
                for w in 0..slots.n {
                    let (idx, next, frontier, visit, sh, newc) = (&idx, &next, &frontier, &visit, &sh, &newc);
                    s2.spawn(move || {
                        let mut out = vec![];
                        let mut mine = vec![];
                        loop {
                            let i = idx.fetch_add(1, Relaxed);
                            if i >= frontier.len() || sh.stop.load(Relaxed) {
                                break;
                            }
                            let (s, d) = &frontier[i];
                            if *d == 0 {
                                continue;
                            }
                            out.clear();
                            if let Err(p) = guard(|| m.succ(s, &mut out)) {
                                eprintln!("harness: {p}");
                                std::process::exit(3);
                            }
                            sh.transitions.fetch_add(out.len() as u64, Relaxed);
                            for t in out.drain(..) {
                                if visit(w, &t, *d - 1) {
                                    newc.fetch_add(1, Relaxed);
                                    if *d > 1 {
                                        mine.push((t, d - 1));
                                    }
                                }
                            }
                        }
                        next.lock().unwrap().append(&mut mine);
                    });
                }
            });
            by_depth.push(newc.load(Relaxed));
            frontier = next.into_inner().unwrap();
        }
        done.store(true, Relaxed);
    });
    let mut v = sh.viol.into_inner().unwrap();
    v.sort_by_key(|(k, _)| (k.len(), k.clone()));
    let res = json!({
        "states": sh.states.iter().map(|s| s.lock().unwrap().len()).sum::<usize>(),
        "transitions": sh.transitions.load(Relaxed),
        "compared": sh.compared.load(Relaxed),
        "by_depth": by_depth,
        "samples": sh.samples.into_inner().unwrap(),
        "violations": v,
        "known_hits": sh.known.iter().map(|k| k.load(Relaxed)).collect::<Vec<_>>(),
        "classes": sh.classes.into_inner().unwrap(),
        "truncated": sh.stop.load(Relaxed),
        "bounds": m.bounds(cfg.tier),
        "level": m.level(),
    });
    std::fs::write(cfg.scratch.join("result.json.tmp"), res.to_string()).unwrap();
    std::fs::rename(cfg.scratch.join("result.json.tmp"), cfg.scratch.join("result.json")).unwrap();
}

/// Message with numbers and quoted parts blanked, for grouping.
pub fn class_of(m: &str) -> String {
    let l = m.lines().next().unwrap_or("");
    let l = if l.contains(" at .") { l.split(": ").next().unwrap() } else { l };
    l.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(160).collect()
}

/// Print every state of the exploration (single-threaded, for inspection).
pub fn dump_keys<M: Model>(m: &M, tier: Tier) {
    let mut fr = m.roots(tier);
    let mut seen = HashSet::new();
    fr.retain(|(s, _)| seen.insert(format!("{}/{}", m.key(s), m.salt(s))));
    for (s, _) in &fr {
        println!("{:?}", m.key(s));
    }
    while let Some((s, d)) = fr.pop() {
        if d == 0 {
            continue;
        }
        let mut out = vec![];
        m.succ(&s, &mut out);
        for t in out {
            if seen.insert(format!("{}/{}", m.key(&t), m.salt(&t))) {
                println!("{:?}", m.key(&t));
                fr.push((t, d - 1));
            }
        }
    }
}

/// Where reports of `run_one` go (descriptor 2 unless a model captures that).
pub static ERR_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);

/// Runs one state in this process; exit code 0 = holds, 1 = violated.
pub fn run_one<M: Model>(m: &M, key: &str) -> i32 {
    install_panic_hook();
    let r = guard(|| m.check(key));
    let (code, msg) = match r {
        Ok(Ok(_)) => (0, "holds".to_string()),
        Ok(Err(f)) => (1, f.msg),
        Err(p) => (1, p),
    };
    let line = format!("MC-ONE: {msg}\n");
    unsafe { libc::write(ERR_FD.load(Relaxed), line.as_ptr() as *const _, line.len()) };
    code
}

// -- supervisor ---------------------------------------------------------------------------------
pub fn limit_as(bytes: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

pub struct Known {
    pub property: String,
    pub pattern: String,
    pub what: String,
}
/// Lines `finding: property=Cnn match=<substring of "key => message"> :: what fails`
pub fn load_known(verif: &Path) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (p, r) = r.split_once(" match=")?;
            let (m, w) = r.split_once(" :: ")?;
            Some(Known { property: p.trim().into(), pattern: m.to_string(), what: w.to_string() })
        })
        .collect()
}

fn spawn(exe: &Path, args: &[&str]) -> std::process::Child {
    std::process::Command::new(exe)
        .args(args)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("spawn worker")
}
fn wait_timeout(c: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
/// Re-run a single state alone. Some(message) if it violates the property.
pub fn confirm(exe: &Path, id: &str, tier: Tier, key: &str, scratch: &Path, secs: u64) -> Option<String> {
    let f = scratch.join("one.key");
    std::fs::write(&f, key).unwrap();
    let mut c = spawn(exe, &["one", id, tier_s(tier), f.to_str().unwrap()]);
    let se = c.stderr.take().unwrap();
    let th = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = Vec::new();
        let _ = se.take(1 << 20).read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    match wait_timeout(&mut c, Duration::from_secs(secs)) {
        None => Some(format!("does not terminate (stopped after {secs} s)")),
        Some(st) => {
            let s = th.join().unwrap_or_default();
            if st.code() == Some(0) {
                None
            } else if st.code() == Some(1) {
                Some(s.lines().filter_map(|l| l.strip_prefix("MC-ONE: ")).last().unwrap_or("violated").to_string())
            } else {
                Some(format!("process died ({st}): {}", s.lines().last().unwrap_or("")))
            }
        }
    }
}
pub fn tier_s(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn supervise(verif: &Path, id: &str, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let scratch = verif.join("scratch").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let known = load_known(verif);
    let mut hang = 15u64;
    let mut tries = 0;
    let (res, mut viol): (Value, Vec<(String, String)>) = loop {
        tries += 1;
        let _ = std::fs::remove_file(scratch.join("result.json"));
        let mut c = spawn(&exe, &["work", id, tier_s(tier), &seed.to_string(), scratch.to_str().unwrap(), &hang.to_string()]);
        let se = c.stderr.take().unwrap();
        let th = std::thread::spawn(move || {
            use std::io::Read;
            let mut s = Vec::new();
            let _ = se.take(1 << 20).read_to_end(&mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let budget = Duration::from_secs(if tier == Tier::Quick { 780 } else { 4 * 3600 });
        let st = wait_timeout(&mut c, budget);
        if let Ok(b) = std::fs::read(scratch.join("result.json")) {
            if st.map(|s| s.success()).unwrap_or(false) {
                let v: Value = serde_json::from_slice(&b).unwrap();
                let viol = serde_json::from_value(v["violations"].clone()).unwrap();
                break (v, viol);
            }
        }
        // died or hung: attribute it
        let suspects = Slots::read_file(&scratch.join("slots"));
        let mut found = vec![];
        for k in suspects {
            if let Some(m) = confirm(&exe, id, tier, &k, &scratch, 30) {
                found.push((k, m));
            }
        }
        let note = format!("worker ended early ({})", st.map(|s| s.to_string()).unwrap_or("time budget".into()));
        if !found.is_empty() {
            let mut fresh = vec![];
            for f in found {
                if !known.iter().any(|k| k.property == id && format!("{} => {}", f.0, f.1).contains(&k.pattern)) {
                    fresh.push(f)
                }
            }
            break (
                json!({"states": 1, "transitions": 0, "compared": 0, "samples": [note], "truncated": true, "bounds": "stopped at a state on which the library hangs or dies", "level": "model_checking", "by_depth": []}),
                fresh,
            );
        }
        let err = th.join().unwrap_or_default();
        eprintln!("{note}; no state confirmed; stderr tail: {}", err.lines().rev().take(3).collect::<Vec<_>>().join(" | "));
        hang *= 6;
        if tries >= 2 {
            eprintln!("giving up");
            let _ = std::fs::remove_dir_all(&scratch);
            return 2;
        }
    };
    // split known findings
    let mut hits: Vec<bool> = (0..known.len()).map(|i| res["known_hits"][i].as_u64().unwrap_or(0) > 0).collect();
    viol.retain(|(k, m)| {
        let d = format!("{k} => {m}");
        let mut keep = true;
        for (i, kf) in known.iter().enumerate() {
            if kf.property == id && d.contains(&kf.pattern) {
                hits[i] = true;
                keep = false;
            }
        }
        keep
    });
    for (i, kf) in known.iter().enumerate() {
        if hits[i] {
            println!("KNOWN-FINDING: property={} {}", kf.property, kf.what);
        }
    }
    let replay_dir = verif.join("replay");
    let _ = std::fs::create_dir_all(&replay_dir);
    // one report per class of message, simplest first
    let mut classes = HashSet::new();
    let mut shown = 0;
    for (k, m) in &viol {
        if !classes.insert(class_of(m)) {
            continue;
        }
        shown += 1;
        if shown > std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(8) {
            break;
        }
        let p = replay_dir.join(format!("{id}-{shown}.json"));
        std::fs::write(&p, json!({"property": id, "tier": tier_s(tier), "key": k, "message": m}).to_string()).unwrap();
        println!("VIOLATION property={id} replay={}", p.display());
        println!("  {m}");
        println!("  state: {}", k.chars().take(900).collect::<String>());
    }
    let level = res["level"].as_str().unwrap_or("model_checking").to_string();
    let mut cov = json!({
        "states": res["states"], "transitions": res["transitions"],
        "traces_validated_against_impl": res["compared"],
        "samples": res["samples"], "states_by_depth": res["by_depth"],
        "bounds": res["bounds"], "exhaustive": !res["truncated"].as_bool().unwrap_or(false),
        "explanation": "states: distinct inputs/histories executed on the real code; transitions: single edits generated; traces_validated_against_impl: results of the real code compared with the reference model",
    });
    if level == "fault_enumeration" || level == "exploration" {
        cov["evaluations"] = res["compared"].clone();
        cov["distinct_nontrivial"] = res["states"].clone();
        cov["rule"] = res["bounds"].clone();
    }
    let ev = json!({
        "property": id, "tier": tier_s(tier), "seed": seed, "level": level, "coverage": cov,
        "assumptions": ["the reference model in /verif/mc/src states the schema and the text conventions correctly", "behaviour beyond the stated bounds is not covered"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": viol.len(),
    });
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    std::fs::write(verif.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{id} {}: states={} transitions={} compared={} violations={} wall={:.1}s",
        tier_s(tier), res["states"], res["transitions"], res["compared"], viol.len(), t0.elapsed().as_secs_f64()
    );
    if viol.is_empty() {
        0
    } else {
        1
    }
}

//! Exhaustive-exploration engine.
//!
//! A property is decided by one or more `Space`s. A space is a finite, indexable
//! set of cases `0..len`; `run(i)` executes case `i` against the real library and
//! returns either statistics or a violation. Every index of every space is run:
//! nothing is sampled. A case may itself be a choice tree (`explore`) that is
//! walked depth-first up to a stated deviation bound.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// Stable identity of the failing input/history (used by the known-findings file).
    pub key: String,
    pub msg: String,
}
pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        key: key.into(),
        msg: msg.into(),
    })
}

#[derive(Debug, Default, Clone)]
pub struct Stats {
    /// executions of the library
    pub execs: u64,
    /// choice points / operations / environment answers taken
    pub steps: u64,
    /// executions whose result carries metadata (not merely an error)
    pub nontrivial: u64,
    /// fingerprints of distinct observations
    pub fps: Vec<u64>,
}
impl Stats {
    pub fn one(nontrivial: bool, fp: u64) -> Self {
        Stats {
            execs: 1,
            steps: 1,
            nontrivial: nontrivial as u64,
            fps: vec![fp],
        }
    }
    pub fn add(&mut self, o: Stats) {
        self.execs += o.execs;
        self.steps += o.steps;
        self.nontrivial += o.nontrivial;
        self.fps.extend(o.fps);
        if self.fps.len() > 4096 {
            self.fps.sort_unstable();
            self.fps.dedup();
        }
    }
    pub fn note(&mut self, nontrivial: bool, fp: u64) {
        self.execs += 1;
        self.steps += 1;
        self.nontrivial += nontrivial as u64;
        self.fps.push(fp);
    }
}
pub type CaseResult = Result<Stats, Violation>;

pub struct Space {
    pub name: String,
    /// how cases are made and what bound the index range covers
    pub rule: String,
    pub len: u64,
    pub run: Box<dyn Fn(u64) -> CaseResult + Sync + Send>,
    pub describe: Box<dyn Fn(u64) -> String + Sync + Send>,
    /// seconds one case may take before it counts as a hang
    pub limit_s: u64,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        rule: impl Into<String>,
        len: u64,
        run: impl Fn(u64) -> CaseResult + Sync + Send + 'static,
        describe: impl Fn(u64) -> String + Sync + Send + 'static,
    ) -> Space {
        Space {
            name: name.into(),
            rule: rule.into(),
            len,
            run: Box::new(run),
            describe: Box::new(describe),
            limit_s: 60,
        }
    }
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Mixed-radix decoding of a case index.
pub struct Mix(pub u64);
impl Mix {
    pub fn d(&mut self, n: u64) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn b(&mut self) -> bool {
        self.d(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.d(xs.len() as u64)]
    }
}

/// k-th permutation of 0..n (factorial number system).
pub fn perm(n: usize, mut k: u64) -> Vec<usize> {
    let mut items: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    for i in (1..=n).rev() {
        let f: u64 = (1..i as u64).product();
        let j = (k / f) as usize;
        k %= f;
        out.push(items.remove(j));
    }
    out
}
pub fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}

// ---------- choice trees ----------

/// Source of environment answers for one execution. Choice 0 is the default
/// answer; every other choice is a deviation.
pub struct Chooser {
    prefix: Vec<u32>,
    pub trail: Vec<(u32, u32)>,
}
impl Chooser {
    pub fn replay(prefix: Vec<u32>) -> Self {
        Chooser {
            prefix,
            trail: vec![],
        }
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        let i = self.trail.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            assert!(c < n, "harness: divergence while replaying a choice prefix");
            c
        } else {
            0
        };
        self.trail.push((c, n));
        c
    }
}

/// Depth-first enumeration of all executions with at most `bound` deviations.
/// `f` runs one complete execution.
pub fn explore(
    bound: usize,
    mut f: impl FnMut(&mut Chooser) -> Result<(bool, u64), Violation>,
) -> CaseResult {
    let mut st = Stats::default();
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        let plen = prefix.len();
        let mut ch = Chooser::replay(prefix);
        let (nt, h) = f(&mut ch)?;
        if ch.trail.len() < plen {
            return viol(
                "harness-divergence",
                "an execution ended before its choice prefix was consumed",
            );
        }
        st.execs += 1;
        st.steps += ch.trail.len() as u64;
        st.nontrivial += nt as u64;
        st.fps.push(h);
        let dev: usize = ch.trail[..plen].iter().filter(|(c, _)| *c != 0).count();
        if dev < bound {
            for i in (plen..ch.trail.len()).rev() {
                for alt in (1..ch.trail[i].1).rev() {
                    let mut p: Vec<u32> = ch.trail[..i].iter().map(|x| x.0).collect();
                    p.push(alt);
                    stack.push(p);
                }
            }
        }
    }
    st.fps.sort_unstable();
    st.fps.dedup();
    Ok(st)
}

// ---------- running ----------

thread_local! {
    static CUR: std::cell::Cell<(u32, u64)> = const { std::cell::Cell::new((u32::MAX, 0)) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

static PROP: Mutex<String> = Mutex::new(String::new());
static mut ABORT_PREFIX: [u8; 256] = [0; 256];
static ABORT_LEN: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn open(path: *const core::ffi::c_char, flags: i32, ...) -> i32;
}

/// SIGABRT: stack overflow, double panic or refused allocation. Name the case.
extern "C" fn on_abort(_: i32) {
    unsafe {
        let (sp, ix) = CUR.try_with(|c| c.get()).unwrap_or((u32::MAX, 0));
        let n = ABORT_LEN.load(Relaxed) as usize;
        let p = &raw const ABORT_PREFIX as *const u8;
        // p[..n] is "VIOLATION property=X replay=<dir>/X-abort.json\n\0<path>\0"
        let mut nl = 0;
        while nl < n && *p.add(nl) != 0 {
            nl += 1;
        }
        let fd = open(p.add(nl + 1) as *const core::ffi::c_char, 0o1 | 0o100 | 0o1000, 0o644 as core::ffi::c_uint);
        if fd >= 0 {
            let mut b = [0u8; 128];
            let mut k = 0;
            let put = |b: &mut [u8; 128], k: &mut usize, s: &[u8]| {
                for c in s {
                    b[*k] = *c;
                    *k += 1;
                }
            };
            let num = |b: &mut [u8; 128], k: &mut usize, mut v: u64| {
                let mut t = [0u8; 20];
                let mut m = 0;
                loop {
                    t[m] = b'0' + (v % 10) as u8;
                    m += 1;
                    v /= 10;
                    if v == 0 {
                        break;
                    }
                }
                while m > 0 {
                    m -= 1;
                    b[*k] = t[m];
                    *k += 1;
                }
            };
            put(&mut b, &mut k, b"{\"abort\":true,\"space_no\":");
            num(&mut b, &mut k, sp as u64);
            put(&mut b, &mut k, b",\"index\":");
            num(&mut b, &mut k, ix);
            put(&mut b, &mut k, b"}\n");
            write(fd, b.as_ptr() as *const core::ffi::c_void, k);
        }
        if sp == u32::MAX {
            // not inside a case: an error of the harness itself
            _exit(3);
        }
        write(1, p as *const core::ffi::c_void, nl);
        _exit(1);
    }
}

pub struct Report {
    pub property: String,
    pub tier: Tier,
    pub level: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
}

#[derive(Clone)]
struct Known {
    property: String,
    key: String,
    what: String,
}

fn load_known(verif: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known-findings.jsonl")) {
        for l in s.lines() {
            let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else {
                continue;
            };
            if j["status"] == "known" {
                v.push(Known {
                    property: j["property"].as_str().unwrap_or("").into(),
                    key: j["key"].as_str().unwrap_or("").into(),
                    what: j["what"].as_str().unwrap_or("").into(),
                });
            }
        }
    }
    v
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

fn run_case(sp: &Space, sno: u32, i: u64) -> CaseResult {
    CUR.with(|c| c.set((sno, i)));
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| (sp.run)(i)));
    CUR.with(|c| c.set((u32::MAX, 0)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if m.contains("harness:") {
                eprintln!("harness error in {}[{}]: {}", sp.name, i, m);
                std::process::exit(3);
            }
            viol(format!("{}[{}]", sp.name, i), format!("panic: {m}"))
        }
    }
}

/// Run every case. Returns the process exit code.
pub fn run(rep: Report, verif: &str) -> i32 {
    let t0 = Instant::now();
    quiet_panics();
    *PROP.lock().unwrap() = rep.property.clone();
    let known: Vec<Known> = load_known(verif)
        .into_iter()
        .filter(|k| k.property == rep.property)
        .collect();
    let replay_dir = format!("{verif}/replay");
    let _ = std::fs::create_dir_all(&replay_dir);
    unsafe {
        let s = format!(
            "VIOLATION property={} replay={}/{}-abort.json\n\0{}/{}-abort.json\0",
            rep.property, replay_dir, rep.property, replay_dir, rep.property
        );
        let p = &raw mut ABORT_PREFIX as *mut u8;
        for (i, b) in s.bytes().enumerate() {
            *p.add(i) = b;
        }
        ABORT_LEN.store(s.len() as u64, Relaxed);
        signal(6, on_abort as *const () as usize);
    }

    let nthreads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8usize);
    let total: u64 = rep.spaces.iter().map(|s| s.len).sum();
    let starts: Vec<u64> = rep
        .spaces
        .iter()
        .scan(0, |a, s| {
            let v = *a;
            *a += s.len;
            Some(v)
        })
        .collect();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let cur: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let since: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let viols: Mutex<BTreeMap<u64, (usize, u64, Violation)>> = Mutex::new(BTreeMap::new());
    struct Agg {
        st: Stats,
        fps: HashSet<u64>,
        ms: u64,
    }
    let aggs: Vec<Mutex<Agg>> = rep
        .spaces
        .iter()
        .map(|_| {
            Mutex::new(Agg {
                st: Stats::default(),
                fps: HashSet::new(),
                ms: 0,
            })
        })
        .collect();
    let done = AtomicU64::new(0);
    let hang = AtomicU64::new(u64::MAX);
    let locate = |g: u64| -> (usize, u64) {
        let s = match starts.binary_search(&g) {
            Ok(mut k) => {
                // skip over empty spaces that share the start
                while rep.spaces[k].len == 0 {
                    k += 1;
                }
                k
            }
            Err(k) => k - 1,
        };
        (s, g - starts[s])
    };
    let max_viol = 200;
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (next, stop, cur, since, viols, aggs, done) =
                (&next, &stop, &cur, &since, &viols, &aggs, &done);
            let (rep, locate, known) = (&rep, &locate, &known);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let chunk = (total / (nthreads as u64 * 64)).clamp(1, 256);
                    while !stop.load(Relaxed) {
                        let g0 = next.fetch_add(chunk, Relaxed);
                        if g0 >= total {
                            break;
                        }
                        for g in g0..(g0 + chunk).min(total) {
                            if stop.load(Relaxed) {
                                break;
                            }
                            let (s, i) = locate(g);
                            since[t].store(t0.elapsed().as_millis() as u64, Relaxed);
                            cur[t].store(g, SeqCst);
                            let c0 = Instant::now();
                            let r = run_case(&rep.spaces[s], s as u32, i);
                            cur[t].store(u64::MAX, SeqCst);
                            match r {
                                Ok(st) => {
                                    let mut a = aggs[s].lock().unwrap();
                                    a.st.execs += st.execs;
                                    a.st.steps += st.steps;
                                    a.st.nontrivial += st.nontrivial;
                                    a.fps.extend(st.fps);
                                    a.ms += c0.elapsed().as_micros() as u64;
                                }
                                Err(v) => {
                                    let is_known = known.iter().any(|k| k.key == v.key);
                                    let mut m = viols.lock().unwrap();
                                    m.insert(g, (s, i, v));
                                    if !is_known && m.len() >= max_viol {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while done.load(SeqCst) < nthreads as u64 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            for t in 0..nthreads {
                let g = cur[t].load(SeqCst);
                if g != u64::MAX {
                    let (s, i) = locate(g);
                    let lim = rep.spaces[s].limit_s * 1000;
                    let began = since[t].load(Relaxed);
                    if now > began + lim && cur[t].load(SeqCst) == g {
                        hang.store(g, SeqCst);
                        let v = Violation {
                            key: format!("{}[{}]", rep.spaces[s].name, i),
                            msg: format!(
                                "no result after {} s: endless or input-disproportionate work",
                                lim / 1000
                            ),
                        };
                        let path = write_replay(&replay_dir, &rep, s, i, &v, 0);
                        println!("violation: {} case {}: {}", rep.spaces[s].name, i, v.msg);
                        println!("VIOLATION property={} replay={}", rep.property, path);
                        write_evidence(
                            verif,
                            &rep,
                            &[],
                            t0.elapsed().as_secs_f64(),
                            1,
                            false,
                            &[],
                        );
                        std::process::exit(1);
                    }
                }
            }
        }
    });

    let viols = viols.into_inner().unwrap();
    let mut code = 0;
    let mut nviol = 0;
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    for (n, (_, (s, i, v))) in viols.iter().enumerate() {
        if let Some(k) = known.iter().find(|k| k.key == v.key) {
            known_hits.insert(k.key.clone(), k.what.clone());
            continue;
        }
        nviol += 1;
        code = 1;
        if nviol <= 5 {
            let path = write_replay(&replay_dir, &rep, *s, *i, v, n);
            println!(
                "violation: {} case {} ({}) key={}: {}",
                rep.spaces[*s].name,
                i,
                trunc(&(rep.spaces[*s].describe)(*i), 400),
                v.key,
                trunc(&v.msg, 1500)
            );
            println!("VIOLATION property={} replay={}", rep.property, path);
        }
    }
    for (k, w) in &known_hits {
        println!("KNOWN-FINDING: property={} {} [{}]", rep.property, w, k);
    }
    let rows: Vec<(u64, u64, u64, u64, u64)> = aggs
        .into_iter()
        .map(|a| {
            let a = a.into_inner().unwrap();
            (
                a.st.execs,
                a.st.steps,
                a.st.nontrivial,
                a.fps.len() as u64,
                a.ms / 1000,
            )
        })
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let stopped = stop.load(Relaxed);
    let kk: Vec<String> = known_hits.keys().cloned().collect();
    write_evidence(verif, &rep, &rows, wall, nviol, !stopped, &kk);
    let (e, st, d): (u64, u64, u64) = rows
        .iter()
        .fold((0, 0, 0), |a, r| (a.0 + r.0, a.1 + r.1, a.2 + r.3));
    for (i, r) in rows.iter().enumerate() {
        println!(
            "  {:<28} cases={} execs={} steps={} nontrivial={} distinct={} cpu_ms={}",
            rep.spaces[i].name, rep.spaces[i].len, r.0, r.1, r.2, r.3, r.4
        );
    }
    println!(
        "{} {}: {} cases, {} executions, {} steps, {} distinct observations, {} violation(s), {} known, {:.1}s",
        rep.property,
        rep.tier.name(),
        total,
        e,
        st,
        d,
        nviol,
        known_hits.len(),
        wall
    );
    code
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}… (+{} chars)", s.chars().count() - n)
    }
}

fn write_replay(dir: &str, rep: &Report, s: usize, i: u64, v: &Violation, n: usize) -> String {
    let path = format!("{dir}/{}-{}-{}.json", rep.property, rep.spaces[s].name, i);
    let _ = n;
    let j = serde_json::json!({
        "property": rep.property,
        "tier": rep.tier.name(),
        "space": rep.spaces[s].name,
        "index": i,
        "case": (rep.spaces[s].describe)(i),
        "key": v.key,
        "message": v.msg,
        "how_to_replay": format!("/verif/check {} --replay {}", rep.property, path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn write_evidence(
    verif: &str,
    rep: &Report,
    rows: &[(u64, u64, u64, u64, u64)],
    wall: f64,
    nviol: u64,
    complete: bool,
    known: &[String],
) {
    let (e, st, nt, d) = rows.iter().fold((0u64, 0u64, 0u64, 0u64), |a, r| {
        (a.0 + r.0, a.1 + r.1, a.2 + r.2, a.3 + r.3)
    });
    let mut samples = vec![];
    for sp in &rep.spaces {
        if sp.len > 0 {
            for i in [0, sp.len / 2] {
                samples.push(serde_json::json!({"space": sp.name, "index": i, "case": trunc(&(sp.describe)(i), 300)}));
            }
        }
    }
    let spaces: Vec<_> = rep
        .spaces
        .iter()
        .enumerate()
        .map(|(k, sp)| {
            let r = rows.get(k).copied().unwrap_or_default();
            serde_json::json!({"name": sp.name, "cases": sp.len, "rule": sp.rule,
                "executions": r.0, "steps": r.1, "with_metadata": r.2, "distinct_observations": r.3})
        })
        .collect();
    let rules: Vec<String> = rep
        .spaces
        .iter()
        .map(|s| format!("{}: {}", s.name, s.rule))
        .collect();
    let mut cov = serde_json::json!({
        "evaluations": e,
        "distinct_nontrivial": d,
        "executions_with_metadata": nt,
        "rule": format!("every index of every space is executed on the real library; distinct = different observed outcomes. {}", rules.join(" | ")),
        "samples": samples,
        "spaces": spaces,
        "exhaustive": complete && nviol == 0,
        "known_findings_hit": known,
    });
    if rep.level == "model_checking" {
        cov["states"] = serde_json::json!(d);
        cov["transitions"] = serde_json::json!(st);
        cov["traces_validated_against_impl"] = serde_json::json!(e);
    } else {
        cov["environment_or_operation_steps"] = serde_json::json!(st);
    }
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let j = serde_json::json!({
        "property": rep.property,
        "tier": rep.tier.name(),
        "seed": seed,
        "level": rep.level,
        "coverage": cov,
        "assumptions": rep.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let p = format!("{verif}/evidence/{}.json", rep.property);
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).expect("write evidence");
}

/// Re-run one recorded case.
pub fn replay(rep: Report, space: &str, index: u64) -> i32 {
    quiet_panics();
    for (n, sp) in rep.spaces.iter().enumerate() {
        if sp.name == space {
            println!("case: {}", (sp.describe)(index));
            return match run_case(sp, n as u32, index) {
                Ok(_) => {
                    println!("held");
                    0
                }
                Err(v) => {
                    println!("violated: key={} {}", v.key, v.msg);
                    1
                }
            };
        }
    }
    println!("no such space");
    3
}

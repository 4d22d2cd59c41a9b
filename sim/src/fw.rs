//! Engine: seeded search over simulated runs, replay, minimisation, evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::time::Instant;

use json::JsonValue;

use crate::rt::{self, Ev, Shared};

// ------------------------------------------------------------------ random numbers
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            lo
        } else {
            lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
        }
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0x9E3779B97F4A7C15));
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------ cases and scenarios
/// The parameters of one run: workload sizes and seeds, scheduler and fault settings.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case(pub BTreeMap<String, i64>);
impl Case {
    pub fn set(&mut self, k: &str, v: i64) -> &mut Case {
        self.0.insert(k.to_string(), v);
        self
    }
    pub fn get(&self, k: &str) -> i64 {
        self.0.get(k).copied().unwrap_or(0)
    }
    pub fn u(&self, k: &str) -> usize {
        self.get(k).max(0) as usize
    }
    pub fn flag(&self, k: &str) -> bool {
        self.get(k) != 0
    }
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::new(mix(self.get("data_seed") as u64, hash_str(salt)))
    }
    pub fn fault(&mut self, kind: usize, ppm: i64) -> &mut Case {
        self.set(&format!("f.{kind:02}"), ppm)
    }
    pub fn to_json(&self) -> JsonValue {
        let mut o = JsonValue::new_object();
        for (k, v) in &self.0 {
            o[k.as_str()] = (*v).into();
        }
        o
    }
    pub fn from_json(j: &JsonValue) -> Case {
        let mut c = Case::default();
        for (k, v) in j.entries() {
            c.0.insert(k.to_string(), v.as_i64().unwrap());
        }
        c
    }
}

pub struct Ctx {
    pub dir: PathBuf,
}
impl Ctx {
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
}

pub type RunFn = fn(&Case, &Ctx) -> Result<(), String>;

pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub weight: u64,
    pub gen: fn(&mut Rng, bool) -> Case,
    /// before the simulation starts (real I/O)
    pub setup: fn(&Case, &Ctx),
    /// the simulated system; calls rt::freeze() before checking
    pub run: RunFn,
    /// after an injected crash: judges what the dead process left behind
    pub post: Option<RunFn>,
    /// substring of the path a failing fault needs, by case key "filter"
    pub filters: &'static [&'static str],
}

// ------------------------------------------------------------------ one run
pub struct Outcome {
    pub verdict: u32,
    pub msg: String,
    pub ev: Vec<Ev>,
    pub overflow: u64,
    pub event_hash: u64,
    pub ileave_hash: u64,
    pub crashed: bool,
    pub panics: String,
    pub trace: Vec<String>,
}
impl Outcome {
    pub fn bad(&self) -> bool {
        self.verdict == rt::V_VIOLATION || self.verdict == rt::V_HANG
    }
    pub fn summary(&self) -> String {
        match self.verdict {
            rt::V_HANG => format!("does not terminate: {}", self.msg),
            _ => self.msg.clone(),
        }
    }
}

fn wipe(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}

fn fork() -> i32 {
    let p = unsafe { libc::fork() };
    assert!(p >= 0, "fork failed");
    p
}

fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            return st;
        }
    }
}

pub const WATCHDOG_S: u32 = 100;

/// Every run sees the same absolute path, wherever it really is: path handling is instrumented code.
pub const SIM_DIR: &str = "/proc/self/cwd/sim";

fn child_env(dir: &Path) -> Ctx {
    std::env::set_current_dir(dir).unwrap();
    let dir = PathBuf::from(SIM_DIR);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::alarm(WATCHDOG_S);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 1);
        if std::env::var("SIM_STDERR").is_err() {
            libc::dup2(null, 2);
        }
    }
    std::env::set_var("TMPDIR", dir.join("tmp"));
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    Ctx { dir }
}

fn make_cfg(sc: &Scenario, case: &Case, seed: u64, replay: Option<&[Ev]>) -> rt::Cfg {
    let mut cfg: rt::Cfg = unsafe { std::mem::zeroed() };
    cfg.seed = seed;
    cfg.policy = case.get("s.pol") as u32;
    cfg.preempt_mean = case.get("s.pm") as u32;
    cfg.yield_ppm = case.get("s.yd") as u32;
    cfg.wakesel_ppm = case.get("s.ws") as u32;
    cfg.stall_len = case.get("s.stall_len") as u32;
    for k in 0..rt::NFAULT {
        cfg.fault_ppm[k] = case.get(&format!("f.{k:02}")).max(0) as u32;
    }
    cfg.fault_max = if case.0.contains_key("f.max") { case.get("f.max") as u32 } else { 1_000_000 };
    cfg.ncpu = case.get("ncpu").clamp(1, 16) as u32;
    cfg.crash_lo = case.get("crash_lo").max(1) as u64;
    cfg.crash_hi = case.get("crash_hi").max(2) as u64;
    cfg.noprog_yields = 100_000;
    cfg.max_edges = 400_000_000;
    let scope = format!("{SIM_DIR}/");
    cfg.scope[..scope.len()].copy_from_slice(scope.as_bytes());
    if !sc.filters.is_empty() {
        let f = sc.filters[case.u("filter").min(sc.filters.len() - 1)];
        cfg.filter[..f.len()].copy_from_slice(f.as_bytes());
    }
    if let Some(ev) = replay {
        cfg.replay = 1;
        cfg.nev = ev.len() as u64;
        cfg.ev = ev.as_ptr();
    }
    cfg
}

/// Executes one simulated run in a child process and judges it.
pub fn exec(sc: &Scenario, case: &Case, seed: u64, replay: Option<&[Ev]>, sh: *mut Shared, dir: &Path, full: bool) -> Outcome {
    wipe(dir);
    let shared = unsafe { &mut *sh };
    shared.reset();
    rt::CUR.store(sh, std::sync::atomic::Ordering::SeqCst);
    let sorted: Option<Vec<Ev>> = replay.map(|r| {
        let mut v = r.to_vec();
        v.sort_by_key(|e| (e.kind, e.at));
        v
    });
    let pid = fork();
    if pid == 0 {
        rt::arena_on();
        let ctx = child_env(dir);
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.setup)(case, &ctx))).is_err() {
            shared.verdict = rt::V_ERROR;
            unsafe { libc::_exit(0) };
        }
        let cfg = make_cfg(sc, case, seed, sorted.as_deref());
        // a map of the same shape however this case came to be: lookups are instrumented code
        let case = Case(case.0.iter().map(|(k, v)| (k.clone(), *v)).collect());
        let run = sc.run;
        rt::run(
            sh,
            &cfg,
            Box::new(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&case, &ctx)));
                let in_sim = rt::active();
                rt::freeze();
                match r {
                    Ok(Ok(())) => rt::verdict(rt::V_OK, ""),
                    Ok(Err(m)) => rt::verdict(rt::V_VIOLATION, &m),
                    Err(e) => {
                        let m = panic_text(&e);
                        if in_sim {
                            rt::verdict(rt::V_VIOLATION, &format!("unexpected panic: {m}"))
                        } else {
                            rt::verdict(rt::V_ERROR, &format!("panic in the oracle: {m}"))
                        }
                    }
                }
            }),
        );
    }
    let st = wait(pid);
    if shared.verdict == rt::V_NONE || libc::WIFSIGNALED(st) && shared.verdict != rt::V_VIOLATION {
        let m;
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            m = format!("process died from signal {sig}");
            shared.verdict = if sig == libc::SIGALRM || sig == libc::SIGKILL { rt::V_ERROR } else { rt::V_VIOLATION };
        } else {
            m = format!("process ended without a verdict (status {st:#x}): process::exit called?");
            shared.verdict = rt::V_VIOLATION;
        }
        shared.msg[..m.len()].copy_from_slice(m.as_bytes());
        shared.msg[m.len()] = 0;
    }
    // a property that says nothing about ending: somebody kills a process that hangs
    if shared.verdict == rt::V_HANG && (sc.prop == "C22" || sc.prop == "C30" || sc.prop == "C21" && sc.name == "dump") {
        shared.verdict = rt::V_CRASHED;
    }
    // the first of two attempts
    if shared.verdict == rt::V_HANG && sc.prop == "C27" && shared.user[5] == 0 {
        shared.verdict = rt::V_CRASHED;
    }
    let mut crashed = false;
    if let (Some(run), rt::V_OK | rt::V_CRASHED) = (crate::props::again::second(sc), shared.verdict) {
        crashed = shared.verdict == rt::V_CRASHED;
        second_process(sc, case, run, shared, dir);
    }
    if shared.verdict == rt::V_CRASHED {
        crashed = true;
        if let Some(post) = sc.post {
            shared.verdict = rt::V_NONE;
            let crash_msg = Shared::text(&shared.msg);
            let pid = fork();
            if pid == 0 {
                let ctx = child_env(dir);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| post(case, &ctx)));
                let (v, m) = match r {
                    Ok(Ok(())) => (rt::V_OK, String::new()),
                    Ok(Err(m)) => (rt::V_VIOLATION, format!("after crash ({crash_msg}): {m}")),
                    Err(e) => (rt::V_ERROR, format!("panic in the oracle after crash ({crash_msg}): {}", panic_text(&e))),
                };
                let b = m.as_bytes();
                let n = b.len().min(rt::MSGCAP - 1);
                shared.msg[..n].copy_from_slice(&b[..n]);
                shared.msg[n] = 0;
                shared.verdict = v;
                unsafe { libc::_exit(0) };
            }
            let st = wait(pid);
            if shared.verdict == rt::V_NONE {
                let m = format!("recovery process died (status {st:#x})");
                shared.msg[..m.len()].copy_from_slice(m.as_bytes());
                shared.msg[m.len()] = 0;
                shared.verdict = rt::V_ERROR;
            }
        } else {
            shared.verdict = rt::V_OK;
        }
    }
    let bad = shared.verdict != rt::V_OK;
    Outcome {
        verdict: shared.verdict,
        msg: Shared::text(&shared.msg),
        ev: if full || bad { shared.ev[..shared.nev as usize].to_vec() } else { Vec::new() },
        overflow: shared.ev_overflow,
        event_hash: shared.event_hash,
        ileave_hash: shared.ileave_hash,
        crashed,
        panics: if bad { Shared::text(&shared.panics) } else { String::new() },
        trace: if bad { shared.last_steps(60) } else { Vec::new() },
    }
}

/// A second process in a simulation of its own: another schedule, no failures. The same in every replay.
fn second_process(sc: &Scenario, case: &Case, run: RunFn, shared: &mut Shared, dir: &Path) {
    static SECOND: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let sh2 = *SECOND.get_or_init(|| rt::new_shared() as usize) as *mut Shared;
    let second = unsafe { &mut *sh2 };
    second.reset();
    let pid = fork();
    if pid == 0 {
        rt::arena_on();
        let ctx = child_env(dir);
        let mut calm = case.clone();
        calm.0.retain(|k, _| !k.starts_with("f."));
        let cfg = make_cfg(sc, &calm, mix(case.get("data_seed") as u64, 27), None);
        let case = Case(case.0.iter().map(|(k, v)| (k.clone(), *v)).collect());
        rt::run(
            sh2,
            &cfg,
            Box::new(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&case, &ctx)));
                rt::freeze();
                match r {
                    Ok(Ok(())) => rt::verdict(rt::V_OK, ""),
                    Ok(Err(m)) => rt::verdict(rt::V_VIOLATION, &m),
                    Err(e) => rt::verdict(rt::V_ERROR, &format!("panic in the oracle: {}", panic_text(&e))),
                }
            }),
        );
    }
    let st = wait(pid);
    let m = match second.verdict {
        rt::V_OK => {
            shared.verdict = rt::V_OK;
            return;
        }
        rt::V_NONE => {
            shared.verdict = if libc::WIFSIGNALED(st) && [libc::SIGALRM, libc::SIGKILL].contains(&libc::WTERMSIG(st)) { rt::V_ERROR } else { rt::V_VIOLATION };
            format!("the process that does it again ended without a verdict (status {st:#x})")
        }
        v => {
            shared.verdict = v;
            format!("after the process was killed ({}): {}", Shared::text(&shared.msg), Shared::text(&second.msg))
        }
    };
    let b = m.as_bytes();
    let n = b.len().min(rt::MSGCAP - 1);
    shared.msg[..n].copy_from_slice(&b[..n]);
    shared.msg[n] = 0;
    shared.panics = second.panics;
    shared.trace = second.trace;
    shared.ntrace = second.ntrace;
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        let mut m: String = m.chars().take(300).collect();
        m.retain(|c| c != '\0');
        rt::panic_note(&m);
        rt::note(&format!("panic: {}", m.replace('\n', " ")));
        if std::env::var("SIM_STDERR").is_ok() {
            eprintln!("{m}");
        }
    }));
}

// ------------------------------------------------------------------ statistics
#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub crashed: u64,
    pub edges: u64,
    pub steps: u64,
    pub switches: u64,
    pub ioops: u64,
    pub io_bytes: u64,
    pub sim_ns: u64,
    pub nontrivial: u64,
    pub threads_max: u64,
    pub injected: [u64; rt::NFAULT],
    pub runs_with: [u64; rt::NFAULT],
    pub user: [u64; 8],
    pub deviations: u64,
    pub overflow_runs: u64,
    pub recheck: u64,
    pub recheck_diff: u64,
    pub errors: u64,
    /// of them, those that ran into the time limit of the real machine
    pub late: u64,
    pub known: u64,
    pub per_scenario: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub ileave: HashSet<u64>,
    pub cov: Vec<u8>,
    pub samples: Vec<JsonValue>,
    pub error_msgs: Vec<String>,
    pub known_ids: BTreeSet<String>,
}

impl Stats {
    fn add_run(&mut self, sc: &Scenario, case: &Case, o: &Outcome, sh: &Shared, seed: u64) {
        self.runs += 1;
        self.crashed += o.crashed as u64;
        self.edges += sh.edges;
        self.steps += sh.yields;
        self.switches += sh.switches;
        self.ioops += sh.ioops;
        self.io_bytes += sh.io_bytes;
        self.sim_ns += sh.sim_ns;
        self.threads_max = self.threads_max.max(sh.nthreads as u64);
        self.deviations += sh.nev;
        self.overflow_runs += (sh.ev_overflow > 0) as u64;
        let mut faults = 0;
        for k in 0..rt::NFAULT {
            self.injected[k] += sh.injected[k];
            self.runs_with[k] += (sh.injected[k] > 0) as u64;
            faults += sh.injected[k];
        }
        for k in 0..8 {
            self.user[k] += sh.user[k];
        }
        *self.per_scenario.entry(sc.name.to_string()).or_default() += 1;
        self.ileave.insert(sh.ileave_hash);
        if (faults > 0 || sh.switches > 0) && (o.verdict == rt::V_OK || o.bad()) {
            self.nontrivial += 1;
            self.hashes.insert(sh.event_hash);
        }
        if self.cov.is_empty() {
            self.cov = vec![0; rt::COVBYTES];
        }
        for (a, b) in self.cov.iter_mut().zip(sh.cov.iter()) {
            *a |= *b;
        }
        if self.samples.len() < 3 && self.runs % 7 == 3 {
            let mut inj = JsonValue::new_object();
            for k in 0..rt::NFAULT {
                if sh.injected[k] > 0 {
                    inj[rt::FAULT_NAMES[k]] = sh.injected[k].into();
                }
            }
            self.samples.push(json::object! {
                "scenario": sc.name, "seed": format!("{seed:#018x}"), "case": case.to_json(),
                "threads": sh.nthreads, "steps": sh.yields, "context_switches": sh.switches, "edges": sh.edges,
                "io_calls": sh.ioops, "simulated_ms": sh.sim_ns / 1_000_000, "injected": inj,
                "ended": if o.crashed { "crash injected, remains judged" } else { "ran to its verdict" },
                "event_hash": format!("{:#018x}", sh.event_hash),
            });
        }
    }
    fn to_json(&self) -> JsonValue {
        let mut j = json::object! {
            "runs": self.runs, "crashed": self.crashed, "edges": self.edges, "steps": self.steps, "switches": self.switches,
            "ioops": self.ioops, "io_bytes": self.io_bytes, "sim_ns": self.sim_ns, "nontrivial": self.nontrivial,
            "threads_max": self.threads_max, "deviations": self.deviations, "overflow_runs": self.overflow_runs,
            "recheck": self.recheck, "recheck_diff": self.recheck_diff, "errors": self.errors, "late": self.late, "known": self.known,
        };
        j["injected"] = JsonValue::from(self.injected.to_vec());
        j["runs_with"] = JsonValue::from(self.runs_with.to_vec());
        j["user"] = JsonValue::from(self.user.to_vec());
        let mut o = JsonValue::new_object();
        for (k, v) in &self.per_scenario {
            o[k.as_str()] = (*v).into();
        }
        j["per_scenario"] = o;
        j["samples"] = JsonValue::Array(self.samples.clone());
        j["error_msgs"] = JsonValue::from(self.error_msgs.clone());
        j["known_ids"] = JsonValue::from(self.known_ids.iter().cloned().collect::<Vec<_>>());
        j
    }
    fn merge_json(&mut self, j: &JsonValue) {
        let g = |k: &str| j[k].as_u64().unwrap_or(0);
        self.runs += g("runs");
        self.crashed += g("crashed");
        self.edges += g("edges");
        self.steps += g("steps");
        self.switches += g("switches");
        self.ioops += g("ioops");
        self.io_bytes += g("io_bytes");
        self.sim_ns += g("sim_ns");
        self.nontrivial += g("nontrivial");
        self.threads_max = self.threads_max.max(g("threads_max"));
        self.deviations += g("deviations");
        self.overflow_runs += g("overflow_runs");
        self.recheck += g("recheck");
        self.recheck_diff += g("recheck_diff");
        self.errors += g("errors");
        self.late += g("late");
        self.known += g("known");
        for k in 0..rt::NFAULT {
            self.injected[k] += j["injected"][k].as_u64().unwrap_or(0);
            self.runs_with[k] += j["runs_with"][k].as_u64().unwrap_or(0);
        }
        for k in 0..8 {
            self.user[k] += j["user"][k].as_u64().unwrap_or(0);
        }
        for (k, v) in j["per_scenario"].entries() {
            *self.per_scenario.entry(k.to_string()).or_default() += v.as_u64().unwrap_or(0);
        }
        for s in j["samples"].members() {
            if self.samples.len() < 6 {
                self.samples.push(s.clone());
            }
        }
        for s in j["error_msgs"].members() {
            self.error_msgs.push(s.to_string());
        }
        for s in j["known_ids"].members() {
            self.known_ids.insert(s.to_string());
        }
    }
}

// ------------------------------------------------------------------ known findings
#[derive(Clone)]
pub struct Finding {
    pub prop: String,
    pub id: String,
    pub scenario: String,
    pub needle: String,
    pub what: String,
}
/// Lines "finding|<property>|<id>|<scenario>|<needle, see Finding::matches>|<what fails>".
pub fn load_findings(root: &Path) -> Vec<Finding> {
    let t = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding|"))
        .filter_map(|l| {
            let f: Vec<&str> = l.splitn(5, '|').collect();
            (f.len() == 5).then(|| Finding {
                prop: f[0].into(),
                id: f[1].into(),
                scenario: f[2].into(),
                needle: f[3].into(),
                what: f[4].into(),
            })
        })
        .collect()
}
fn known<'a>(fs: &'a [Finding], sc: &Scenario, o: &Outcome) -> Option<&'a Finding> {
    fs.iter().find(|f| f.prop == sc.prop && f.scenario == sc.name && f.matches(o))
}
impl Finding {
    /// Every part of the needle (separated by &&) is in the verdict; a part "panics-in:X" asks
    /// that something panicked and that every panic of the run is in a file whose path has X.
    fn matches(&self, o: &Outcome) -> bool {
        let panics: Vec<&str> = o.panics.lines().filter(|l| l.contains("panicked at")).collect();
        !self.needle.is_empty()
            && self.needle.split("&&").all(|part| match part.strip_prefix("panics-in:") {
                Some(x) => !panics.is_empty() && panics.iter().all(|l| l.contains(x)),
                None => o.summary().contains(part),
            })
    }
}

// ------------------------------------------------------------------ search
pub struct Params {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub max_runs: u64,
    pub budget_s: f64,
    pub workers: usize,
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub only: Option<String>,
}

fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let r = libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        if r != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

pub fn run_case(scs: &[&'static Scenario], prop_seed: u64, i: u64, thorough: bool) -> (&'static Scenario, Case, u64) {
    let seed = mix(prop_seed, i + 1);
    let mut rng = Rng::new(seed);
    let total: u64 = scs.iter().map(|s| s.weight).sum();
    let mut k = rng.below(total);
    let mut sc = scs[0];
    for s in scs {
        if k < s.weight {
            sc = s;
            break;
        }
        k -= s.weight;
    }
    let mut case = (sc.gen)(&mut rng, thorough);
    if !case.0.contains_key("data_seed") {
        case.set("data_seed", (rng.next() >> 16) as i64);
    }
    if !case.0.contains_key("ncpu") {
        case.set("ncpu", rng.range(1, 4));
    }
    (sc, case, rng.next())
}

fn worker(p: &Params, scs: &[&'static Scenario], w: usize, findings: &[Finding], started: Instant, stop: *mut u32) {
    pin(w);
    let sh = rt::new_shared();
    let dir = p.scratch.join(format!("w{w}"));
    let mut st = Stats::default();
    let prop_seed = mix(p.seed, hash_str(&p.prop));
    let mut i = w as u64;
    let mut max = [0u64; 4];
    while i < p.max_runs && started.elapsed().as_secs_f64() < p.budget_s {
        if unsafe { std::ptr::read_volatile(stop) } != 0 {
            break;
        }
        let (sc, case, seed) = run_case(scs, prop_seed, i, p.thorough);
        let recheck = i % 61 == 7;
        let t1 = Instant::now();
        let o = exec(sc, &case, seed, None, sh, &dir, recheck);
        if std::env::var_os("SIM_SLOW").is_some() && t1.elapsed().as_secs_f64() > 1.5 {
            eprintln!("run {i} of {} took {:.1} s: {}", sc.name, t1.elapsed().as_secs_f64(), case.to_json().dump());
        }
        if std::env::var_os("SIM_MAX").is_some() {
            let sh = unsafe { &*sh };
            for (m, (v, name)) in max.iter_mut().zip([(sh.yields, "steps"), (sh.ioops, "ioops"), (sh.edges, "edges"), (sh.io_bytes, "bytes")]) {
                if v > *m {
                    *m = v;
                    eprintln!("MAX {name} {v} run {i} of {}: {}", sc.name, case.to_json().dump());
                }
            }
        }
        st.add_run(sc, &case, &o, unsafe { &*sh }, seed);
        if o.verdict == rt::V_ERROR {
            st.errors += 1;
            st.late += o.msg.starts_with("process died from signal") as u64;
            if st.error_msgs.len() < 3 {
                st.error_msgs.push(format!("scenario {} run {i}: {} [{}]", sc.name, o.msg, o.panics));
            }
        } else if o.bad() {
            if let Some(f) = known(findings, sc, &o) {
                st.known += 1;
                st.known_ids.insert(f.id.clone());
            } else {
                let j = json::object! {
                    "scenario": sc.name, "run": i, "seed": format!("{seed}"), "case": case.to_json(), "verdict": o.summary(),
                };
                let tmp = p.scratch.join(format!("found{w}.tmp"));
                std::fs::write(&tmp, j.dump()).unwrap();
                std::fs::rename(&tmp, p.scratch.join(format!("found{w}.json"))).unwrap();
                unsafe { std::ptr::write_volatile(stop, 1) };
                break;
            }
        } else if recheck && o.overflow == 0 {
            // the recorded schedule and fault trace must reproduce the run exactly
            st.recheck += 1;
            let o2 = exec(sc, &case, seed, Some(&o.ev), sh, &dir, false);
            if o2.event_hash != o.event_hash || o2.verdict != o.verdict {
                st.recheck_diff += 1;
                if st.error_msgs.len() < 3 {
                    st.error_msgs.push(format!("scenario {} run {i}: replay differs", sc.name));
                }
            }
        }
        i += p.workers as u64;
    }
    let mut b = Vec::new();
    for h in &st.hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(p.scratch.join(format!("h{w}.bin")), b).unwrap();
    let mut b = Vec::new();
    for h in &st.ileave {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(p.scratch.join(format!("i{w}.bin")), b).unwrap();
    std::fs::write(p.scratch.join(format!("c{w}.bin")), &st.cov).unwrap();
    std::fs::write(p.scratch.join(format!("s{w}.json")), st.to_json().dump()).unwrap();
}

pub fn evs_to_json(ev: &[Ev]) -> JsonValue {
    JsonValue::Array(
        ev.iter().map(|e| json::array![rt::EV_NAMES[e.kind as usize], e.a, format!("{}", e.at), format!("{}", e.c)]).collect(),
    )
}
pub fn evs_from_json(j: &JsonValue) -> Vec<Ev> {
    j.members()
        .map(|m| Ev {
            kind: rt::EV_NAMES.iter().position(|n| *n == m[0].as_str().unwrap()).unwrap() as u32,
            a: m[1].as_u32().unwrap(),
            at: m[2].as_str().unwrap().parse().unwrap(),
            c: m[3].as_str().unwrap().parse().unwrap(),
        })
        .collect()
}

pub struct Minimised {
    pub case: Case,
    pub seed: u64,
    pub ev: Vec<Ev>,
    pub out: Outcome,
    pub note: String,
}

fn minimise(sc: &Scenario, case: &Case, seed: u64, sh: *mut Shared, dir: &Path, findings: &[Finding], budget: f64) -> Option<Minimised> {
    let t0 = Instant::now();
    let bad = |o: &Outcome| o.bad() && known(findings, sc, o).is_none();
    let mut execs = 0u64;
    let mut o = exec(sc, case, seed, None, sh, dir, true);
    for _ in 0..3 {
        if bad(&o) {
            break;
        }
        o = exec(sc, case, seed, None, sh, dir, true);
    }
    if !bad(&o) {
        eprintln!("last attempt: verdict {} {} hash {:#x}", o.verdict, o.summary(), o.event_hash);
        return None;
    }
    let (mut case, mut seed) = (case.clone(), seed);
    // 1. smaller workloads
    loop {
        let mut improved = false;
        let keys: Vec<String> =
            case.0.keys().filter(|k| !k.starts_with("s.") && !k.starts_with("f.") && *k != "data_seed" && *k != "filter").cloned().collect();
        for k in keys {
            let cur = case.get(&k);
            let mut tries: Vec<i64> = vec![0, 1, cur / 2, cur - 1];
            tries.retain(|t| *t >= 0 && *t < cur);
            tries.dedup();
            for t in tries {
                if t0.elapsed().as_secs_f64() > budget * 0.5 {
                    break;
                }
                let mut c2 = case.clone();
                c2.set(&k, t);
                let mut hit = false;
                for alt in 0..2u64 {
                    let s2 = if alt == 0 { seed } else { mix(seed, alt) };
                    execs += 1;
                    let o2 = exec(sc, &c2, s2, None, sh, dir, true);
                    if bad(&o2) {
                        case = c2.clone();
                        seed = s2;
                        o = o2;
                        hit = true;
                        break;
                    }
                }
                if hit {
                    improved = true;
                    break;
                }
            }
        }
        if !improved || t0.elapsed().as_secs_f64() > budget * 0.5 {
            break;
        }
    }
    // 2. fewer schedule deviations and faults
    let mut ev = o.ev.clone();
    let full = ev.len();
    let o1 = exec(sc, &case, seed, Some(&ev), sh, dir, true);
    if !bad(&o1) {
        return Some(Minimised { case, seed, ev, out: o, note: "not minimised: the recorded trace alone does not reproduce it".into() });
    }
    let mut out = o1;
    let o0 = exec(sc, &case, seed, Some(&[]), sh, dir, true);
    if bad(&o0) {
        ev.clear();
        out = o0;
    }
    let mut n = 2usize;
    while !ev.is_empty() && t0.elapsed().as_secs_f64() < budget {
        let chunk = (ev.len() + n - 1) / n;
        let mut reduced = false;
        let mut start = 0;
        while start < ev.len() && t0.elapsed().as_secs_f64() < budget {
            let mut e2 = ev[..start].to_vec();
            e2.extend_from_slice(&ev[(start + chunk).min(ev.len())..]);
            execs += 1;
            let o2 = exec(sc, &case, seed, Some(&e2), sh, dir, true);
            if bad(&o2) {
                ev = e2;
                out = o2;
                reduced = true;
            } else {
                start += chunk;
            }
        }
        if !reduced {
            if chunk <= 1 {
                break;
            }
            n = (n * 2).min(ev.len());
        } else {
            n = n.max(2).min(ev.len().max(2));
        }
    }
    let out2 = exec(sc, &case, seed, Some(&ev), sh, dir, true);
    if bad(&out2) {
        out = out2;
    }
    let note = format!("{} of {} recorded decisions kept after {} trial runs", ev.len(), full, execs);
    Some(Minimised { case, seed, ev, out, note })
}

fn read_hashes(p: &Path, set: &mut HashSet<u64>) {
    if let Ok(b) = std::fs::read(p) {
        for c in b.chunks_exact(8) {
            set.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

/// Returns the exit code.
pub fn check(p: &Params, all: &[&'static Scenario], level_note: &str, components: &JsonValue) -> i32 {
    let started = Instant::now();
    let scs: Vec<&'static Scenario> =
        all.iter().copied().filter(|s| s.prop == p.prop && p.only.as_ref().map(|o| o == s.name).unwrap_or(true)).collect();
    if scs.is_empty() {
        eprintln!("no scenario for {}", p.prop);
        return 2;
    }
    let findings = load_findings(&p.root);
    wipe(&p.scratch);
    let stop = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u32
    };
    let mut pids = Vec::new();
    for w in 0..p.workers {
        let pid = fork();
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(p, &scs, w, &findings, started, stop);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut worker_failed = false;
    for pid in pids {
        worker_failed |= wait(pid) != 0;
    }
    let mut st = Stats::default();
    let mut cov = vec![0u8; rt::COVBYTES];
    for w in 0..p.workers {
        if let Ok(t) = std::fs::read_to_string(p.scratch.join(format!("s{w}.json"))) {
            st.merge_json(&json::parse(&t).unwrap());
        }
        read_hashes(&p.scratch.join(format!("h{w}.bin")), &mut st.hashes);
        read_hashes(&p.scratch.join(format!("i{w}.bin")), &mut st.ileave);
        if let Ok(b) = std::fs::read(p.scratch.join(format!("c{w}.bin"))) {
            for (a, b) in cov.iter_mut().zip(b) {
                *a |= b;
            }
        }
    }
    let search_s = started.elapsed().as_secs_f64();
    // violations found?
    let mut found: Vec<JsonValue> = Vec::new();
    for w in 0..p.workers {
        if let Ok(t) = std::fs::read_to_string(p.scratch.join(format!("found{w}.json"))) {
            found.push(json::parse(&t).unwrap());
        }
    }
    found.sort_by_key(|j| j["run"].as_u64().unwrap());
    let mut code = 0;
    let mut violations = 0;
    let mut unreproduced = 0;
    for f in &found {
        if violations > 0 {
            break;
        }
        let sc = scs.iter().find(|s| s.name == f["scenario"].as_str().unwrap()).unwrap();
        let case = Case::from_json(&f["case"]);
        let seed: u64 = f["seed"].as_str().unwrap().parse().unwrap();
        println!("violation candidate in scenario {}: {}", sc.name, f["verdict"]);
        let _ = std::io::stdout().flush();
        let sh = rt::new_shared();
        let dir = p.scratch.join("min");
        pin(0);
        match minimise(sc, &case, seed, sh, &dir, &findings, if p.thorough { 120.0 } else { 40.0 }) {
            None => {
                unreproduced += 1;
                eprintln!("candidate could not be reproduced from its seed: {}", f.dump());
            }
            Some(m) => {
                violations += 1;
                let rdir = p.root.join("replays");
                std::fs::create_dir_all(&rdir).unwrap();
                let path = rdir.join(format!("{}-{}-{:08x}.json", p.prop, sc.name, m.out.event_hash as u32));
                let j = json::object! {
                    "property": p.prop.as_str(), "scenario": sc.name, "violation": m.out.summary(),
                    "verif_seed": p.seed, "run_seed": format!("{}", m.seed), "case": m.case.to_json(),
                    "trace": evs_to_json(&m.ev), "trace_legend": "[decision, thread or fault kind, at counter, argument]",
                    "event_hash": format!("{:#018x}", m.out.event_hash), "minimised": m.note.as_str(),
                    "panics": m.out.panics.as_str(), "last_steps": m.out.trace.clone(),
                };
                std::fs::write(&path, json::stringify_pretty(j, 1)).unwrap();
                let again = run_file(&path, all, sh, &dir);
                if again.event_hash != m.out.event_hash {
                    eprintln!("harness error: the replay file gives {:#x} instead of {:#x}", again.event_hash, m.out.event_hash);
                }
                println!("violation: {}", m.out.summary());
                println!("minimised: {}; case {}", m.note, m.case.to_json().dump());
                println!("VIOLATION property={} replay={}", p.prop, path.display());
                code = 1;
            }
        }
    }
    // a machine that is very busy may stop a long run or two, which says nothing about the code
    let too_many = st.errors > st.late || st.late > 2 + st.runs / 500;
    if code == 0 && (unreproduced > 0 || worker_failed || too_many || st.recheck_diff > 0) {
        for m in &st.error_msgs {
            eprintln!("harness error: {m}");
        }
        if worker_failed {
            eprintln!("harness error: a worker process died");
        }
        code = 2;
    }
    for f in &findings {
        if f.prop == p.prop {
            println!("KNOWN-FINDING: property={} {} (seen in this run: {})", f.prop, f.what, st.known_ids.contains(&f.id));
        }
    }
    let wall = started.elapsed().as_secs_f64();
    let mut inj = JsonValue::new_object();
    for k in 0..rt::NFAULT {
        if st.injected[k] > 0 {
            inj[rt::FAULT_NAMES[k]] = json::object! {"injected": st.injected[k], "in_runs": st.runs_with[k]};
        }
    }
    let mut per = JsonValue::new_object();
    for (k, v) in &st.per_scenario {
        per[k.as_str()] = (*v).into();
    }
    let ev = json::object! {
        "property": p.prop.as_str(), "tier": if p.thorough { "thorough" } else { "quick" }, "seed": p.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.hashes.len(),
            "rule": "One case = one simulated run: a seed draws the scenario, workload sizes and data, scheduler settings and fault rates; the run's own seeded streams then decide every context switch, wake-up and fault. Non-trivial: the run reached a verdict and had at least one context switch or injected fault. Distinct: by the hash of its complete event history (every switch with its position, every I/O call with its outcome, every thread start/exit).",
            "samples": JsonValue::Array(st.samples.clone()),
            "scenarios": per,
            "seeds": st.runs,
            "runs_per_hour": ((st.runs as f64) / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": (st.sim_ns as f64) / 1e9,
            "scheduling_steps": st.steps,
            "context_switches": st.switches,
            "instrumented_edges_executed": st.edges,
            "distinct_interleavings": st.ileave.len(),
            "distinct_interleavings_measure": "hash over the sequence of (from thread, to thread, last code edge) of all context switches of a run",
            "distinct_code_edges_reached": cov.iter().filter(|b| **b != 0).count(),
            "schedule_deviations_and_faults_logged": st.deviations,
            "max_threads_in_a_run": st.threads_max,
            "io_calls": st.ioops,
            "faults_injected": inj,
            "runs_ended_by_injected_crash": st.crashed,
            "exact_replays_checked": st.recheck,
            "exact_replays_that_differed": st.recheck_diff,
            "runs_without_answer": st.errors,
            "workload_counters": JsonValue::from(st.user.to_vec()),
            "known_finding_hits": st.known,
            "components": components.clone(),
        },
        "assumptions": json::array![level_note],
        "wall_s": wall, "violations": violations,
    };
    let edir = p.root.join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{}.json", p.prop)), json::stringify_pretty(ev, 1)).unwrap();
    println!(
        "{}: {} runs ({} distinct non-trivial, {} interleavings) in {:.1}s, {} violations, {} known-finding hits, exit {}",
        p.prop, st.runs, st.hashes.len(), st.ileave.len(), wall, violations, st.known, code
    );
    let _ = std::fs::remove_dir_all(&p.scratch);
    code
}

fn run_file(file: &Path, all: &[&'static Scenario], sh: *mut Shared, dir: &Path) -> Outcome {
    let j = json::parse(&std::fs::read_to_string(file).unwrap()).unwrap();
    let sc = all.iter().find(|s| s.prop == j["property"].as_str().unwrap() && s.name == j["scenario"].as_str().unwrap()).unwrap();
    let seed: u64 = j["run_seed"].as_str().unwrap().parse().unwrap();
    exec(sc, &Case::from_json(&j["case"]), seed, Some(&evs_from_json(&j["trace"])), sh, dir, true)
}

/// Re-executes a replay file: exit 1 if it shows the violation again.
pub fn replay(file: &Path, all: &[&'static Scenario], scratch: &Path, verbose: bool) -> i32 {
    let j = json::parse(&std::fs::read_to_string(file).unwrap()).unwrap();
    pin(0);
    let sh = rt::new_shared();
    wipe(scratch);
    let o = run_file(file, all, sh, &scratch.join("r"));
    let _ = std::fs::remove_dir_all(scratch);
    println!("verdict: {} {}", o.verdict, o.summary());
    println!("event_hash: {:#018x} (recorded {})", o.event_hash, j["event_hash"]);
    if verbose {
        println!("panics:\n{}", o.panics);
        for t in &o.trace {
            println!("{t}");
        }
    }
    if o.bad() {
        println!("VIOLATION property={} replay={}", j["property"], file.display());
        1
    } else {
        0
    }
}

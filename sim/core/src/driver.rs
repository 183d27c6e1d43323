//! Runs scenarios over many seeds, checks them, minimises and replays what fails, and writes the evidence.
use crate::net::Net;
use crate::raw;
use crate::rng::{hash_str, mix, Choices, Rng};
use crate::shm::*;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Crash,
    Hang,
    Deadlock,
    Exit(i32),
    Panic,
    Signal(i32),
    Harness(String),
}

#[derive(Clone, Debug)]
pub struct FaultEv {
    pub kind: u32,
    pub at: u64,
    pub what: String,
}

impl FaultEv {
    /// The file offset of a failed read or write.
    pub fn offset(&self) -> usize {
        self.what.rsplit_once('@').and_then(|x| x.1.parse().ok()).unwrap_or(0)
    }
}

pub struct Out {
    pub end: End,
    pub result: Vec<u8>,
    pub out: String,
    pub err: String,
    pub faults: Vec<FaultEv>,
    pub panics: String,
    pub npanics: u32,
    pub vtime: u64,
    pub edges: u64,
    pub escapes: Vec<String>,
    pub requests: u32,
    /// the most memory the process held at any time
    pub peak: u64,
    pub trace: String,
}
impl Out {
    pub fn harmful(&self) -> Vec<&FaultEv> {
        self.faults.iter().filter(|f| KINDS.iter().any(|k| k.0 == f.kind && k.2)).collect()
    }
    pub fn describe_end(&self) -> String {
        let p: String = self.panics.chars().take(400).collect();
        format!("{:?}{}{}", self.end, if p.is_empty() { "" } else { ": " }, p)
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub text: String,
}
impl Viol {
    pub fn new(key: &str, text: impl Into<String>) -> Viol {
        Viol { key: key.to_string(), text: text.into() }
    }
}
pub type Verdict = Result<(), Viol>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($t:tt)*) => { if !$c { return Err($crate::Viol::new($key, format!($($t)*))); } };
}

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(&mut Ctx) -> Verdict,
}
pub struct Property {
    pub id: &'static str,
    pub scenarios: &'static [(Scenario, u64)],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

/// What the scenario wants of a simulated process, before the run's choices are applied.
#[derive(Clone)]
pub struct PhaseCfg {
    pub faults: FaultPlan,
    pub scopes: Vec<Scope>,
    pub net_kinds: Vec<u32>,
    pub policy: Option<Policy>,
    pub preempt_gap: Option<u64>,
    pub ncpu: usize,
    pub vary: bool,
    pub spurious: bool,
    pub wall_base: i64,
    pub tty: bool,
    pub cap_vtime_s: u64,
    pub cap_edges: u64,
    pub cap_steps: u64,
    pub env: Vec<(String, String)>,
    pub args: Vec<String>,
    pub rlimit_as: Option<u64>,
    pub rseed: Option<u64>,
    pub pid: i32,
    /// the program sees no time pass
    pub frozen: bool,
}
impl Default for PhaseCfg {
    fn default() -> Self {
        PhaseCfg {
            faults: FaultPlan::default(),
            scopes: vec![],
            net_kinds: vec![],
            policy: None,
            preempt_gap: None,
            ncpu: 1,
            vary: true,
            spurious: false,
            wall_base: 1_700_000_000,
            tty: false,
            cap_vtime_s: 4000,
            cap_edges: 400_000_000,
            cap_steps: 3_000_000,
            env: vec![],
            args: vec![],
            rlimit_as: None,
            rseed: None,
            pid: 4242,
            frozen: false,
        }
    }
}
impl PhaseCfg {
    /// No faults, no variation, run to block: the reference environment.
    pub fn calm() -> PhaseCfg {
        PhaseCfg {
            vary: false,
            policy: Some(Policy::RunToBlock),
            preempt_gap: Some(0),
            rseed: Some(7),
            ..Default::default()
        }
    }
    pub fn fault(mut self, plan: FaultPlan) -> Self {
        self.faults = plan;
        self
    }
    pub fn scope(mut self, prefix: &str, kinds: &[u32]) -> Self {
        self.scopes.push(Scope { prefix: prefix.into(), kinds: kinds.to_vec() });
        self
    }
    pub fn net_faults(mut self, kinds: &[u32]) -> Self {
        self.net_kinds = kinds.to_vec();
        self
    }
}

pub type Body = Box<dyn FnOnce() -> Vec<u8>>;

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub phases: u64,
    pub vtime: u64,
    pub edges: u64,
    pub switches: u64,
    pub steps: u64,
    pub requests: u64,
    pub crashes: u64,
    pub nontrivial: u64,
    pub counts: Vec<u64>,
    pub sched: HashSet<u64>,
    pub cases: HashSet<u64>,
    pub samples: Vec<String>,
    pub per_scenario: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub seed: u64,
    pub w: Choices,
    pub dir: PathBuf,
    phase: u32,
    replay: Option<BTreeMap<u32, Vec<Rec>>>,
    recs: Vec<(u32, Rec)>,
    shm: [&'static Shm; 2],
    turn: &'static Turn,
    pub stats: Stats,
    pub nontrivial: bool,
    pub case: String,
    pub log: Vec<String>,
    pub trace: bool,
    pub verbose: bool,
    pub tier_deep: bool,
}

pub fn fault_plan(w: &mut Choices) -> FaultPlan {
    match w.weighted(&[3, 2, 2, 2]) {
        0 => FaultPlan { rate: 0, single_at: Some(log_uniform(w, 400)), max: 1 },
        1 => FaultPlan { rate: 0, single_at: Some(w.below(24)), max: 1 },
        2 => FaultPlan { rate: 40, single_at: None, max: 3 },
        _ => FaultPlan { rate: 8, single_at: None, max: 12 },
    }
}
pub fn log_uniform(w: &mut Choices, max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let b = w.below(bits + 1);
    w.below((1u64 << b).min(max + 1))
}

impl Ctx {
    pub fn path(&self, rel: &str) -> PathBuf {
        self.dir.join(rel)
    }
    pub fn write(&self, rel: &str, data: &[u8]) {
        let p = self.dir.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    /// The scenario damaged stored data.
    pub fn mutated(&mut self, kind: u32) {
        self.stats.counts.resize(NKINDS, 0);
        self.stats.counts[kind as usize] += 1;
        let s = format!("damage: {} {}", kind_name(kind), self.case);
        self.note(s);
    }
    pub fn note(&mut self, s: String) {
        if self.verbose {
            eprintln!("  {}", s);
        }
        self.log.push(s);
    }
    /// The policy and preemption gap of a phase in generation mode.
    fn policy(&self, phase: u32) -> (Policy, u64) {
        let mut r = Rng::new(mix(self.seed, 777 + phase as u64));
        let p = match r.below(8) {
            0 => Policy::RunToBlock,
            1 => Policy::Random(1, 2),
            2 => Policy::Random(1, 8),
            3 => Policy::Random(1, 40),
            4 => Policy::RoundRobin,
            _ => Policy::Pct(3),
        };
        let g = [0, 0, 30, 200, 2000, 20000][r.below(6) as usize];
        (p, g)
    }
    fn build(&self, c: &PhaseCfg, turn: Option<(&'static Turn, u32)>) -> Cfg {
        let ph = self.phase;
        let (policy, gap) = self.policy(ph);
        Cfg {
            seed: mix(self.seed, 100 + ph as u64),
            rseed: c.rseed.unwrap_or(mix(self.seed, 5000 + ph as u64)),
            replay: self.replay.as_ref().map(|m| m.get(&ph).cloned().unwrap_or_default()),
            policy: c.policy.clone().unwrap_or(policy),
            preempt_gap: c.preempt_gap.unwrap_or(gap),
            faults: c.faults.clone(),
            scopes: c.scopes.clone(),
            net_kinds: c.net_kinds.clone(),
            scratch: self.dir.to_str().unwrap().to_string(),
            ncpu: c.ncpu,
            pid: c.pid,
            wall_base: c.wall_base,
            frozen: c.frozen,
            tty: c.tty,
            cap_vtime: 1_000_000_000 + c.cap_vtime_s * 1_000_000_000,
            cap_edges: c.cap_edges,
            cap_steps: c.cap_steps,
            vary: c.vary,
            spurious: c.spurious,
            turn,
            turn_den: 3,
            trace: self.trace,
            env: c.env.clone(),
            rlimit_as: c.rlimit_as,
            args: c.args.clone(),
        }
    }
    pub fn phase(&mut self, name: &str, c: PhaseCfg, net: Net, body: Body) -> Out {
        let cfg = self.build(&c, None);
        self.shm[0].reset();
        let pid = spawn(cfg, self.shm[0], net, body);
        let st = wait(pid);
        self.collect(name, 0, st)
    }
    /// Two simulated processes over one file system, taking turns at file operations.
    pub fn phase2(&mut self, name: &str, a: (PhaseCfg, Net, Body), b: (PhaseCfg, Net, Body)) -> (Out, Out) {
        self.turn.turn.store(0, Ordering::SeqCst);
        self.turn.done[0].store(0, Ordering::SeqCst);
        self.turn.done[1].store(0, Ordering::SeqCst);
        let c0 = self.build(&a.0, Some((self.turn, 0)));
        self.phase += 1;
        let c1 = self.build(&b.0, Some((self.turn, 1)));
        self.phase -= 1;
        self.shm[0].reset();
        self.shm[1].reset();
        let p0 = spawn(c0, self.shm[0], a.1, a.2);
        let p1 = spawn(c1, self.shm[1], b.1, b.2);
        let mut st = [None, None];
        while st.iter().any(|s| s.is_none()) {
            let mut status = 0;
            let r = unsafe { libc::waitpid(-1, &mut status, 0) };
            if r < 0 {
                break;
            }
            let k = if r == p0 { 0 } else if r == p1 { 1 } else { continue };
            st[k] = Some(status);
            self.turn.done[k].store(1, Ordering::SeqCst);
            raw::futex_wake(&self.turn.turn);
        }
        let oa = self.collect(&format!("{}/A", name), 0, st[0].unwrap_or(9));
        let ob = self.collect(&format!("{}/B", name), 1, st[1].unwrap_or(9));
        (oa, ob)
    }
    fn collect(&mut self, name: &str, k: usize, st: i32) -> Out {
        let shm = self.shm[k];
        let ph = self.phase;
        self.phase += 1;
        for r in shm.recs() {
            self.recs.push((ph, r));
        }
        let status = shm.status.load(Ordering::SeqCst);
        let npanics = shm.panics.load(Ordering::SeqCst);
        let end = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGALRM => End::Hang,
                s => End::Signal(s),
            }
        } else {
            match status {
                ST_DONE if shm.code.load(Ordering::SeqCst) == 101 => End::Panic,
                ST_DONE => End::Done,
                ST_CRASH => End::Crash,
                ST_HANG => End::Hang,
                ST_DEADLOCK => End::Deadlock,
                ST_EXIT => End::Exit(shm.code.load(Ordering::SeqCst)),
                s => End::Harness(format!("status {} wait {}", s, st)),
            }
        };
        let text = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
        let mut faults = Vec::new();
        let mut escapes = Vec::new();
        for l in text(shm.events.get()).lines() {
            let f: Vec<&str> = l.splitn(4, '\t').collect();
            if f.len() < 4 {
                continue;
            }
            match f[0].parse() {
                Ok(kind) => faults.push(FaultEv { kind, at: f[1].parse().unwrap_or(0), what: f[3].to_string() }),
                Err(_) => escapes.push(f[3].to_string()),
            }
        }
        let vt = shm.vtime.load(Ordering::SeqCst).saturating_sub(1_000_000_000);
        let s = &mut self.stats;
        s.phases += 1;
        s.vtime += vt;
        s.edges += shm.edges.load(Ordering::SeqCst);
        s.switches += shm.switches.load(Ordering::SeqCst);
        s.steps += shm.steps.load(Ordering::SeqCst);
        s.requests += shm.requests.load(Ordering::SeqCst) as u64;
        s.counts.resize(NKINDS, 0);
        for (i, c) in shm.counts.iter().enumerate() {
            s.counts[i] += c.load(Ordering::SeqCst) as u64;
        }
        if end == End::Crash {
            s.crashes += 1;
        }
        s.sched.insert(mix(shm.schedhash.load(Ordering::SeqCst), hash_str(name)));
        let out = Out {
            end,
            result: shm.result.get(),
            out: text(shm.out.get()),
            err: text(shm.err.get()),
            faults,
            panics: text(shm.panic_text.get()),
            npanics,
            vtime: vt,
            edges: shm.edges.load(Ordering::SeqCst),
            escapes,
            requests: shm.requests.load(Ordering::SeqCst),
            peak: shm.peak.load(Ordering::SeqCst),
            trace: text(shm.trace.get()),
        };
        self.note(format!(
            "phase {} {}: {} after {:.6} s of virtual time, {} threads, {} switches, {} requests",
            ph,
            name,
            out.describe_end(),
            vt as f64 / 1e9,
            shm.threads.load(Ordering::SeqCst),
            shm.switches.load(Ordering::SeqCst),
            out.requests
        ));
        for f in out.faults.iter().take(60) {
            self.note(format!("  fault at {:.6} s: {} {}", f.at as f64 / 1e9 - 1.0, kind_name(f.kind), f.what));
        }
        for e in &out.escapes {
            self.note(format!("  outside of the scratch directory (refused): {}", e));
        }
        out
    }
    fn clean(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(&self.dir).unwrap();
    }
}

extern "C" fn main_thread(p: *mut libc::c_void) -> *mut libc::c_void {
    let body = unsafe { Box::from_raw(p as *mut Body) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(*body));
    let _g = enter();
    match r {
        Ok(v) => {
            sim().shm.result.append(&v);
            if sim().shm.result.lost.load(Ordering::SeqCst) > 0 {
                finish(ST_HARNESS, 1)
            }
            finish(ST_DONE, 0)
        }
        Err(_) => finish(ST_DONE, 101),
    }
}

fn spawn(cfg: Cfg, shm: &'static Shm, net: Net, body: Body) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid > 0 {
        return pid;
    }
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::alarm(150);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        libc::mallopt(libc::M_ARENA_MAX, 1);
    }
    std::env::set_current_dir(&cfg.scratch).unwrap();
    let keys: Vec<_> = std::env::vars_os().map(|x| x.0).collect();
    for k in keys {
        std::env::remove_var(k);
    }
    std::env::set_var("HOME", format!("{}/home", cfg.scratch));
    for (k, v) in &cfg.env {
        std::env::set_var(k, v.replace("@SCRATCH@", &cfg.scratch));
    }
    std::panic::set_hook(Box::new(move |info| {
        let _g = enter();
        shm.panics.fetch_add(1, Ordering::SeqCst);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        shm.panic_text.append(format!("[{}] {}\n", loc, msg).as_bytes());
    }));
    if !cfg.args.is_empty() {
        crate::args::set(&cfg.args);
    }
    if let Some(n) = cfg.rlimit_as {
        let z = libc::rlimit { rlim_cur: n, rlim_max: n };
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &z);
        }
    }
    install(cfg, shm, net);
    let b = Box::into_raw(Box::new(body));
    unsafe { crate::hooks::run_main(main_thread, b as *mut libc::c_void) }
}

fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            return st;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return 9;
        }
    }
}

// ---- one run -----------------------------------------------------------------
#[derive(Clone)]
pub struct Case {
    pub prop: String,
    pub scenario: String,
    pub seed: u64,
    /// None: generate from the seed
    pub fixed: Option<(Vec<u64>, Vec<(u32, Rec)>)>,
}

struct Runner {
    dir: PathBuf,
    shm: [&'static Shm; 2],
    turn: &'static Turn,
    deep: bool,
}

struct RunOut {
    verdict: Verdict,
    w: Vec<u64>,
    recs: Vec<(u32, Rec)>,
    log: Vec<String>,
}

impl Runner {
    fn new(dir: PathBuf, deep: bool) -> Runner {
        Runner { dir, shm: [map_shared(), map_shared()], turn: map_shared(), deep }
    }
    fn run(&self, sc: &Scenario, case: &Case, stats: &mut Stats, verbose: bool, trace: bool) -> RunOut {
        let (w, replay) = match &case.fixed {
            None => (Choices::gen(mix(case.seed, 1)), None),
            Some((w, recs)) => {
                let mut m: BTreeMap<u32, Vec<Rec>> = BTreeMap::new();
                for (p, r) in recs {
                    m.entry(*p).or_default().push(*r);
                }
                (Choices::replay(w.clone()), Some(m))
            }
        };
        let mut ctx = Ctx {
            seed: case.seed,
            w,
            dir: self.dir.clone(),
            phase: 0,
            replay,
            recs: vec![],
            shm: self.shm,
            turn: self.turn,
            stats: std::mem::take(stats),
            nontrivial: false,
            case: String::new(),
            log: vec![],
            trace,
            verbose,
            tier_deep: self.deep,
        };
        ctx.clean();
        let verdict = (sc.run)(&mut ctx);
        if verbose {
            eprintln!("  {}", ctx.case);
        }
        ctx.stats.runs += 1;
        *ctx.stats.per_scenario.entry(sc.name.to_string()).or_default() += 1;
        if ctx.nontrivial {
            ctx.stats.nontrivial += 1;
            let ev: String = ctx.log.join("\n");
            ctx.stats.cases.insert(mix(hash_str(&ctx.case), hash_str(&ev)));
        }
        if ctx.stats.samples.len() < 3 && ctx.nontrivial {
            let s = format!("seed {} scenario {}: {} | {}", case.seed, sc.name, ctx.case, ctx.log.join("; "));
            ctx.stats.samples.push(s.chars().take(1200).collect());
        }
        *stats = std::mem::take(&mut ctx.stats);
        let n = ctx.w.used();
        let mut w = ctx.w.list.clone();
        w.truncate(n);
        RunOut { verdict, w, recs: ctx.recs, log: ctx.log }
    }
}

fn case_json(c: &Case, v: &Viol, log: &[String]) -> Value {
    let (w, recs) = c.fixed.clone().unwrap_or_default();
    json!({
        "property": c.prop, "scenario": c.scenario, "seed": c.seed.to_string(),
        "mode": if c.fixed.is_some() { "recorded" } else { "seed" },
        "violation_key": v.key, "violation": v.text.chars().take(6000).collect::<String>(),
        "workload": w,
        "choices": recs.iter().map(|(p, r)| json!([p, r.stream, r.idx, r.val])).collect::<Vec<_>>(),
        "streams": "choices are [simulated process, stream, index, value]; streams 0 faults, 1 scheduling, 2 environment, 3 preemption, 4 process turns",
        "trace": log,
    })
}
pub fn load_case(p: &Path) -> (Case, String) {
    let v: Value = serde_json::from_slice(&std::fs::read(p).expect("replay file")).expect("replay json");
    let arr = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    let fixed = if v["mode"] == "recorded" {
        Some((
            arr("workload").iter().map(|x| x.as_u64().unwrap()).collect(),
            arr("choices")
                .iter()
                .map(|x| {
                    (
                        x[0].as_u64().unwrap() as u32,
                        Rec { stream: x[1].as_u64().unwrap() as u32, idx: x[2].as_u64().unwrap(), val: x[3].as_u64().unwrap() as u32 },
                    )
                })
                .collect(),
        ))
    } else {
        None
    };
    (
        Case {
            prop: v["property"].as_str().unwrap().into(),
            scenario: v["scenario"].as_str().unwrap().into(),
            seed: v["seed"].as_str().unwrap().parse().unwrap(),
            fixed,
        },
        v["violation_key"].as_str().unwrap_or("").into(),
    )
}

fn find<'a>(props: &'a [Property], prop: &str, sc: &str) -> (&'a Property, &'a Scenario) {
    let p = props.iter().find(|p| p.id == prop).expect("property");
    let s = &p.scenarios.iter().find(|s| s.0.name == sc).expect("scenario").0;
    (p, s)
}

// ---- minimisation --------------------------------------------------------------
fn minimise(r: &Runner, sc: &Scenario, case: Case, viol: Viol, budget_s: f64) -> (Case, Viol, Vec<String>) {
    let t0 = raw::now_real();
    let mut st = Stats::default();
    let mut best = case;
    let mut bv = viol;
    let mut blog = vec![];
    let mut try_it = |c: &Case, bv: &Viol| -> Option<(Viol, Vec<u64>, Vec<(u32, Rec)>, Vec<String>)> {
        let o = r.run(sc, c, &mut st, false, false);
        match o.verdict {
            Err(v) if v.key == bv.key => Some((v, o.w, o.recs, o.log)),
            _ => None,
        }
    };
    let accept = |best: &mut Case, bv: &mut Viol, blog: &mut Vec<String>, x: (Viol, Vec<u64>, Vec<(u32, Rec)>, Vec<String>)| {
        *bv = x.0;
        best.fixed = Some((x.1, x.2));
        *blog = x.3;
    };
    // drop decisions: streams from the least to the most important, in halving blocks
    for stream in [P, N, S, T, F] {
        let mut size = usize::MAX;
        loop {
            let cur = best.fixed.clone().unwrap();
            let ids: Vec<usize> = (0..cur.1.len()).filter(|i| cur.1[*i].1.stream == stream).collect();
            if ids.is_empty() {
                break;
            }
            size = size.min(ids.len());
            let mut changed = false;
            let mut at = 0;
            while at < ids.len() {
                if raw::now_real() - t0 > budget_s {
                    return (best, bv, blog);
                }
                let drop: HashSet<usize> = ids[at..(at + size).min(ids.len())].iter().copied().collect();
                let mut c = best.clone();
                let recs = cur.1.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|x| *x.1).collect();
                c.fixed = Some((cur.0.clone(), recs));
                if let Some(x) = try_it(&c, &bv) {
                    if x.2.len() < cur.1.len() {
                        accept(&mut best, &mut bv, &mut blog, x);
                        changed = true;
                        break;
                    }
                }
                at += size;
            }
            if !changed {
                if size <= 1 {
                    break;
                }
                size /= 2;
            }
        }
    }
    // lower the workload choices
    let mut i = 0;
    while i < best.fixed.as_ref().unwrap().0.len() {
        let cur = best.fixed.clone().unwrap();
        let v = cur.0[i];
        for nv in [0, v / 2, v.saturating_sub(1)] {
            if nv >= v || raw::now_real() - t0 > budget_s {
                continue;
            }
            let mut c = best.clone();
            let mut w = cur.0.clone();
            w[i] = nv;
            c.fixed = Some((w, cur.1.clone()));
            if let Some(x) = try_it(&c, &bv) {
                accept(&mut best, &mut bv, &mut blog, x);
                break;
            }
        }
        i += 1;
        if raw::now_real() - t0 > budget_s {
            break;
        }
    }
    (best, bv, blog)
}

// ---- the command line ------------------------------------------------------------
fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && std::fs::create_dir_all(shm.join("ljs-probe")).is_ok() {
        let _ = std::fs::remove_dir(shm.join("ljs-probe"));
        shm.to_path_buf()
    } else {
        PathBuf::from("/tmp")
    };
    base.join(format!("ljs{:08x}", unsafe { raw::sys3(libc::SYS_getpid, 0, 0, 0) } as u32))
}

fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            libc::personality(cur as u64 | libc::ADDR_NO_RANDOMIZE as u64);
            std::env::set_var("SIM_REEXEC", "1");
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            eprintln!("re-exec failed: {}", e);
        }
    }
}

fn stats_json(s: &Stats) -> Value {
    json!({
        "runs": s.runs, "phases": s.phases, "vtime": s.vtime, "edges": s.edges, "switches": s.switches, "steps": s.steps,
        "requests": s.requests, "crashes": s.crashes, "nontrivial": s.nontrivial, "counts": s.counts,
        "sched": s.sched.iter().collect::<Vec<_>>(), "cases": s.cases.iter().collect::<Vec<_>>(), "samples": s.samples,
        "per_scenario": s.per_scenario,
    })
}

pub fn main(props: &'static [Property], prewarm: fn()) -> ! {
    std::hint::black_box(crate::hooks::anchor());
    no_aslr();
    let args: Vec<String> = std::env::args().take_while(|a| a != "--pad").collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    prewarm();
    let code = match arg(1).as_str() {
        "check" => check(props, &arg(2)),
        "replay" => replay(props, Path::new(&arg(2)), args.iter().any(|a| a == "-v")),
        "one" => {
            // sim one PROP SCENARIO SEED
            let (_, sc) = find(props, &arg(2), &arg(3));
            let base = scratch_base();
            let r = Runner::new(base.join("00"), false);
            let c = Case { prop: arg(2), scenario: arg(3), seed: arg(4).parse().unwrap(), fixed: None };
            let mut st = Stats::default();
            let trace = args.iter().any(|a| a == "-t");
            let o = r.run(sc, &c, &mut st, true, trace);
            if trace {
                for k in r.shm {
                    println!("{}", String::from_utf8_lossy(&k.trace.get()));
                }
            }
            println!("case: {:?}", st.samples);
            println!("verdict: {:?}", o.verdict.map_err(|v| format!("{}: {}", v.key, v.text)));
            let _ = std::fs::remove_dir_all(&base);
            0
        }
        "determinism" => determinism(props, &arg(2), arg(3).parse().unwrap_or(50)),
        "list" => {
            for p in props {
                println!("{} {}", p.id, p.scenarios.iter().map(|s| s.0.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | one PROP SCENARIO SEED | determinism PROP N");
            2
        }
    };
    std::process::exit(code)
}

fn pick_scenario(p: &Property, seed: u64) -> &Scenario {
    let total: u64 = p.scenarios.iter().map(|s| s.1).sum();
    let mut v = mix(seed, 31337) % total;
    for (s, w) in p.scenarios {
        if v < *w {
            return s;
        }
        v -= w;
    }
    unreachable!()
}

fn known(prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=C01 key=<key> <what fails>"
    let f = std::fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
    f.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            (p == prop).then(|| (k.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

fn check(props: &'static [Property], id: &str) -> i32 {
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let t0 = raw::now_real();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let deep = tier == "thorough";
    let jobs: u64 = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let runs: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { p.thorough_runs } else { p.quick_runs });
    let cap: f64 = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { 3000.0 } else { 200.0 });
    let base = scratch_base();
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let known = known(id);
    let mut pids = Vec::new();
    for j in 0..jobs {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let code = worker(p, seed, runs, jobs, j, t0 + cap, &base, deep, &known);
            raw::exit_group(code);
        }
        pids.push(pid);
    }
    let mut failed = false;
    let mut harness = 0;
    let mut left: HashSet<i32> = pids.iter().copied().collect();
    while !left.is_empty() {
        let mut st = 0;
        let r = unsafe { libc::waitpid(-1, &mut st, 0) };
        if r < 0 {
            break;
        }
        left.remove(&r);
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 2 };
        if code == 1 {
            // others finish the run they are in and stop
            failed = true;
            std::fs::write(base.join("stop"), b"").ok();
        } else if code != 0 {
            harness += 1;
        }
    }
    // merge
    let mut tot = Stats { counts: vec![0; NKINDS], ..Default::default() };
    let mut cov = vec![0u8; COV];
    let mut viols: Vec<(u64, PathBuf)> = Vec::new();
    let mut knowns: BTreeMap<String, String> = BTreeMap::new();
    let mut unrep = 0;
    for j in 0..jobs {
        if let Ok(b) = std::fs::read(base.join(format!("cov{}", j))) {
            for (a, b) in cov.iter_mut().zip(b) {
                *a |= b;
            }
        }
        let Ok(b) = std::fs::read(base.join(format!("stats{}.json", j))) else { continue };
        let Ok(v) = serde_json::from_slice::<Value>(&b) else { continue };
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        tot.runs += u("runs");
        tot.phases += u("phases");
        tot.vtime += u("vtime");
        tot.edges += u("edges");
        tot.switches += u("switches");
        tot.steps += u("steps");
        tot.requests += u("requests");
        tot.crashes += u("crashes");
        tot.nontrivial += u("nontrivial");
        for (i, c) in v["counts"].as_array().unwrap().iter().enumerate() {
            tot.counts[i] += c.as_u64().unwrap();
        }
        tot.sched.extend(v["sched"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
        tot.cases.extend(v["cases"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
        for s in v["samples"].as_array().unwrap() {
            if tot.samples.len() < 4 {
                tot.samples.push(s.as_str().unwrap().into());
            }
        }
        for (k, c) in v["per_scenario"].as_object().unwrap() {
            *tot.per_scenario.entry(k.clone()).or_default() += c.as_u64().unwrap();
        }
        unrep += u("unreproduced");
        for (k, t) in v["known"].as_object().unwrap() {
            knowns.insert(k.clone(), t.as_str().unwrap_or("").into());
        }
        if let Some(f) = v["violation"].as_str() {
            viols.push((u("violation_index"), PathBuf::from(f)));
        }
    }
    viols.sort();
    let wall = raw::now_real() - t0;
    let covered = cov.iter().filter(|b| **b != 0).count();
    let faults: BTreeMap<&str, u64> =
        KINDS.iter().filter(|k| tot.counts[k.0 as usize] > 0).map(|k| (k.1, tot.counts[k.0 as usize])).collect();
    let injected: u64 = KINDS.iter().map(|k| tot.counts[k.0 as usize]).sum();
    let ev = json!({
        "property": id, "tier": if deep { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.cases.len(),
            "rule": p.rule,
            "samples": tot.samples,
            "simulated_processes": tot.phases,
            "nontrivial_runs": tot.nontrivial,
            "seeds_per_hour": (tot.runs as f64 / wall * 3600.0) as u64,
            "simulated_time_s": tot.vtime as f64 / 1e9,
            "faults_and_variations_injected": injected,
            "by_kind": faults,
            "process_crashes_survived": tot.crashes,
            "distinct_interleavings": tot.sched.len(),
            "interleaving_measure": "hash of the sequence of thread switches with their sites, per simulated process",
            "thread_switches": tot.switches,
            "intercepted_calls_and_wakeups": tot.steps,
            "code_edges_executed": tot.edges,
            "distinct_code_edges": covered,
            "http_requests_served": tot.requests,
            "runs_per_scenario": tot.per_scenario,
            "requested_runs": runs,
            "unreproduced_failures": unrep,
            "real_components": p.real,
            "stubbed_components": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": viols.len(),
    });
    let evf = verif_root().join("evidence").join(format!("{}.json", id));
    std::fs::create_dir_all(evf.parent().unwrap()).unwrap();
    std::fs::write(&evf, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&base);
    println!(
        "{}: {} runs ({} simulated processes), {} distinct non-trivial, {} interleavings, {} faults and variations, {:.0} s simulated, {:.1} s",
        id, tot.runs, tot.phases, tot.cases.len(), tot.sched.len(), injected, tot.vtime as f64 / 1e9, wall
    );
    for (k, t) in &knowns {
        println!("KNOWN-FINDING: property={} {} {}", id, k, t);
    }
    if let Some((_, f)) = viols.first() {
        let v: Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
        println!("{}: {}", v["violation_key"].as_str().unwrap_or(""), v["violation"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", id, f.display());
        return 1;
    }
    let _ = failed;
    if harness > 0 || tot.runs == 0 {
        println!("harness failure in {} workers", harness);
        return 2;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Property, seed: u64, runs: u64, jobs: u64, j: u64, until: f64, base: &Path, deep: bool, known: &[(String, String)]) -> i32 {
    let r = Runner::new(base.join(format!("{:02}", j)), deep);
    let mut st = Stats { counts: vec![0; NKINDS], ..Default::default() };
    let mut viol: Option<(u64, PathBuf)> = None;
    let mut unrep = 0;
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut i = j;
    let only = std::env::var("SIM_SCENARIO").ok();
    while i < runs {
        if raw::now_real() > until || base.join("stop").exists() {
            break;
        }
        let s = mix(mix(seed, hash_str(p.id)), i);
        let sc = match &only {
            Some(n) => &p.scenarios.iter().find(|x| x.0.name == n).expect("scenario").0,
            None => pick_scenario(p, s),
        };
        let case = Case { prop: p.id.into(), scenario: sc.name.into(), seed: s, fixed: None };
        let o = r.run(sc, &case, &mut st, false, false);
        if let Err(v) = o.verdict {
            if v.key == "harness" {
                eprintln!("harness problem, seed {}: {}\n{}", s, v.text, o.log.join("\n"));
                return 3;
            }
            if let Some((k, t)) = known.iter().find(|k| v.key == k.0) {
                seen.insert(k.clone(), t.clone());
                i += jobs;
                continue;
            }
            let text = format!("{}: {}\n{}", v.key, v.text, o.log.join("\n"));
            match confirm(&r, sc, &case, v, o.w, o.recs, o.log) {
                Some(f) => {
                    viol = Some((i, f));
                    break;
                }
                None => {
                    unrep += 1;
                    eprintln!("failure did not reproduce, not reported: {} {} seed {}: {}", p.id, sc.name, s, text);
                    if unrep > 3 {
                        break;
                    }
                }
            }
        }
        i += jobs;
    }
    let mut v = stats_json(&st);
    v["unreproduced"] = json!(unrep);
    v["known"] = json!(seen);
    if let Some((i, f)) = &viol {
        v["violation"] = json!(f.to_str().unwrap());
        v["violation_index"] = json!(i);
    }
    std::fs::write(base.join(format!("stats{}.json", j)), serde_json::to_vec(&v).unwrap()).unwrap();
    let mut cov = r.shm[0].cov.to_vec();
    for (a, b) in cov.iter_mut().zip(r.shm[1].cov.iter()) {
        *a |= *b;
    }
    std::fs::write(base.join(format!("cov{}", j)), cov).unwrap();
    viol.is_some() as i32
}

/// Reproduce, minimise, and verify the replay file in a fresh process.
fn confirm(r: &Runner, sc: &Scenario, case: &Case, v: Viol, w: Vec<u64>, recs: Vec<(u32, Rec)>, log: Vec<String>) -> Option<PathBuf> {
    let dir = verif_root().join("out").join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join(format!("{}-{}-{}.json", case.prop, sc.name, case.seed));
    let write = |c: &Case, v: &Viol, log: &[String]| {
        std::fs::write(&file, serde_json::to_vec_pretty(&case_json(c, v, log)).unwrap()).unwrap();
    };
    let fresh = || -> bool {
        let o = std::process::Command::new("/proc/self/exe").arg("replay").arg(&file).arg("--pad").args(vec!["x"; 40]).output();
        matches!(o, Ok(o) if o.status.code() == Some(1))
    };
    let recorded = Case { fixed: Some((w, recs)), ..case.clone() };
    let mut st = Stats::default();
    let o = r.run(sc, &recorded, &mut st, false, false);
    let same = matches!(&o.verdict, Err(x) if x.key == v.key);
    if same {
        let budget = std::env::var("SIM_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(25.0);
        let (c, mv, mlog) = minimise(r, sc, recorded.clone(), v.clone(), budget);
        write(&c, &mv, if mlog.is_empty() { &log } else { &mlog });
        if fresh() {
            return Some(file);
        }
        write(&recorded, &v, &log);
        if fresh() {
            return Some(file);
        }
    }
    write(case, &v, &log);
    if fresh() {
        return Some(file);
    }
    let _ = std::fs::remove_file(&file);
    None
}

fn replay(props: &'static [Property], file: &Path, verbose: bool) -> i32 {
    let (case, key) = load_case(file);
    let (_, sc) = find(props, &case.prop, &case.scenario);
    let base = scratch_base();
    let r = Runner::new(base.join("00"), false);
    let mut st = Stats::default();
    let o = r.run(sc, &case, &mut st, verbose, false);
    let _ = std::fs::remove_dir_all(&base);
    match o.verdict {
        Err(v) if v.key == key => {
            println!("{}", o.log.join("\n"));
            println!("{}: {}", v.key, v.text);
            println!("VIOLATION property={} replay={}", case.prop, file.display());
            1
        }
        Err(v) => {
            println!("different failure: {}: {}", v.key, v.text);
            3
        }
        Ok(()) => {
            println!("not reproduced");
            0
        }
    }
}

/// Every run twice, and once more from its recorded choices: the logs and choices must agree.
fn determinism(props: &'static [Property], id: &str, n: u64) -> i32 {
    let p = props.iter().find(|p| p.id == id).expect("property");
    let base = scratch_base();
    let r = Runner::new(base.join("00"), false);
    let mut bad = 0;
    let mut st = Stats::default();
    for i in 0..n {
        let s = mix(mix(99, hash_str(p.id)), i);
        let sc = pick_scenario(p, s);
        let case = Case { prop: id.into(), scenario: sc.name.into(), seed: s, fixed: None };
        let a = r.run(sc, &case, &mut st, false, false);
        let b = r.run(sc, &case, &mut st, false, false);
        let c = r.run(sc, &Case { fixed: Some((a.w.clone(), a.recs.clone())), ..case.clone() }, &mut st, false, false);
        for (k, x) in [("again", &b), ("recorded", &c)] {
            if x.log != a.log || x.recs != a.recs || x.verdict.is_ok() != a.verdict.is_ok() {
                bad += 1;
                println!("seed {} {} {} differs", s, sc.name, k);
                for (l, m) in a.log.iter().zip(x.log.iter()) {
                    if l != m {
                        println!("  - {}\n  + {}", l, m);
                    }
                }
                let d = a.recs.iter().zip(x.recs.iter()).position(|(l, m)| l != m);
                println!("  records {} vs {}, first difference at {:?}", a.recs.len(), x.recs.len(), d);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    println!("{}: {} of {} runs not deterministic", id, bad, n);
    (bad > 0) as i32
}

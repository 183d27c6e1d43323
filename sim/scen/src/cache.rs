//! C11 and C12: runs that share a cache, one after the other or at the same time.
use crate::gen::word;
use crate::lines::ended;
use crate::tree::*;
use crate::web::Site;
use crate::wire::{R, W};
use crate::zuul;
use simcore::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::rc::Rc;
use url::Url;

pub const C11: Property = Property {
    id: "C11",
    scenarios: &[(Scenario { name: "site", run: c11_site }, 3), (Scenario { name: "zuul", run: c11_zuul }, 2), (Scenario { name: "entries", run: c11_entries }, 3)],
    quick_runs: 6_000,
    thorough_runs: 100_000,
    rule: "a run counts when a fault hit one of the earlier runs; distinct by content, faults and schedule",
    real: "logreduce-cache, logreduce-model (reader, url and zuul discovery, training, report), httpdir, reqwest, hyper and tokio, flate2, bincode",
    stub: "sockets, name resolution and the servers, the file system below the system call interface, futexes, clock and randomness",
    assumptions: &["the remote content does not change between the runs", "a kill loses nothing that was already handed to the operating system", "an answer of 403, 404 or 410 to the question whether the logs of a build exist is taken as the truth about them"],
};
pub const C12: Property = Property {
    id: "C12",
    scenarios: &[(Scenario { name: "site", run: c12_site }, 3), (Scenario { name: "zuul", run: c12_zuul }, 2), (Scenario { name: "entries", run: c12_entries }, 3)],
    quick_runs: 5_000,
    thorough_runs: 100_000,
    rule: "a run counts when both processes changed the cache and were switched between at file operations; distinct by content and schedule",
    real: "logreduce-cache, logreduce-model (reader, url and zuul discovery, training, report), httpdir, reqwest, hyper and tokio, flate2, bincode; two processes over one file system",
    stub: "sockets, name resolution and the servers, the order of file operations, futexes, clock and randomness",
    assumptions: &["the remote content does not change between the runs"],
};

pub const C18: Property = Property {
    id: "C18",
    scenarios: &[(Scenario { name: "site", run: c18_site }, 3), (Scenario { name: "zuul", run: c18_zuul }, 2)],
    quick_runs: 4_000,
    thorough_runs: 100_000,
    rule: "a run counts when the repeated run got nothing from the network and its report has at least one log; distinct by content, faults and schedule",
    real: "logreduce-cache, logreduce-model (reader, url and zuul discovery, training, report), httpdir, reqwest, hyper and tokio, flate2, bincode",
    stub: "sockets, name resolution and the servers, the file system below the system call interface, futexes, clock and randomness",
    assumptions: &["the first run read every log to its end", "nothing but the runs changes the cache"],
};

const DISK: &[u32] = &[
    WRITE_ENOSPC, WRITE_EIO, WRITE_SHORT, WRITE_EINTR, CRASH, CRASH_TORN, POWER_LOSS, POWER_HOLES, FSYNC_ERR, DISK_FULL, OPEN_EACCES, OPEN_EIO, OPEN_EMFILE, MKDIR_ERR, RENAME_ERR, UNLINK_ERR, READ_EIO, READ_EINTR,
    READ_SHORT, FSYNC_ERR,
];
const NET: &[u32] = &[CONN_REFUSED, CONN_TIMEOUT, RESET_EARLY, RESET_MID, TRUNC, STALL_HEAD, STALL_MID, HTTP_5XX, HTTP_BUSY, GARBAGE, BAD_GZIP, DNS_FAIL, HTTP_WRONG];

/// What a run analyses, as often as wanted.
struct Job {
    net: Box<dyn Fn() -> Net>,
    body: Rc<dyn Fn() -> Vec<u8>>,
    /// another analysis that may use the same cache
    other: Rc<dyn Fn() -> Vec<u8>>,
}
impl Job {
    fn other(&self) -> Body {
        let b = self.other.clone();
        Box::new(move || b())
    }
    fn body(&self) -> Body {
        let b = self.body.clone();
        Box::new(move || b())
    }
}
fn env(mut c: PhaseCfg, dir: &str, cached: bool) -> PhaseCfg {
    c.env.push(("XDG_CACHE_HOME".into(), format!("@SCRATCH@/{}", dir)));
    if cached {
        c.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
    }
    c
}
fn site_job(ctx: &mut Ctx, stops: bool) -> Job {
    let w = &mut ctx.w;
    let shared = w.chance(1, 4);
    let mut t = tree(w, &Shape { groups: 2, files: 3, shared, json: false, ..Default::default() });
    // content that makes a reader stop early
    if stops && w.chance(1, 4) {
        let i = w.below(t.target.len() as u64) as usize;
        let at = w.below(t.target[i].data.len() as u64 + 1) as usize;
        let what: &[u8] = if w.chance(1, 2) { b"\xff\xfe" } else { b"\nTASK [log-classify : x]\n" };
        t.target[i].data.splice(at..at, what.iter().copied());
    }
    let mut site = Site::default();
    for f in &t.base {
        site.put(&format!("/logs/base/{}", f.rel), &f.data);
    }
    for f in &t.target {
        site.put(&format!("/logs/target/{}", f.rel), &f.data);
    }
    ctx.case = t.describe();
    // another host with similar files: the targets are the baselines and the other way around
    let mut mirror = Site::default();
    for (p, d) in &site.files {
        let q = match p.strip_prefix("/logs/base/") {
            Some(x) => format!("/logs/target/{}", x),
            None => p.replace("/logs/target/", "/logs/base/"),
        };
        mirror.put(&q, d);
        // and some under the same name
        if w.chance(1, 3) && !mirror.files.contains_key(p) {
            mirror.put(p, b"something else\n");
        }
    }
    // all of it, or single logs
    let (mut from, mut to) = ("base/".to_string(), "target/".to_string());
    if w.chance(1, 5) {
        from.push_str(&w.pick(&t.base).rel);
        to.push_str(&w.pick(&t.target).rel);
    }
    let url = move |h: &str, p: &str| format!("http://{}/logs/{}", h, p);
    let (l1, l2) = (url("logs.sim", &from), url("logs.sim", &to));
    let (m1, m2) = (url("mirror.sim", &from), url("mirror.sim", &to));
    let (site, mirror) = (Rc::new(site), Rc::new(mirror));
    Job {
        net: Box::new(move || {
            let (s, m) = (site.clone(), mirror.clone());
            Net::new(&["logs.sim", "mirror.sim"], Box::new(move |q| if q.host == "logs.sim" { s.answer(q) } else { m.answer(q) }))
        }),
        body: Rc::new(move || analyse(&l1, &l2)),
        other: Rc::new(move || analyse(&m1, &m2)),
    }
}
fn zuul_job(ctx: &mut Ctx) -> Job {
    let (mut z, target, url) = zuul::server(&mut ctx.w, false);
    let w = &mut ctx.w;
    let t = tree(w, &Shape { groups: 1, files: 2, orphans: false, json: false, ..Default::default() });
    z.logs = Site::default();
    for f in &t.target {
        z.logs.put(&format!("/target/{}", f.rel), &f.data);
    }
    // every build that has logs has the same files, but is told apart by what it does not know
    for b in z.builds.iter().filter(|b| b.uuid != target.uuid) {
        if let Some(p) = b.log_url.as_deref().and_then(|u| u.strip_prefix("http://logs.sim")) {
            if w.chance(4, 5) {
                for f in &t.base {
                    let mut d = f.data.clone();
                    d.extend_from_slice(format!("build {}\n", b.uuid).as_bytes());
                    z.logs.put(&format!("{}{}", p, f.rel), &d);
                }
            }
        }
    }
    ctx.case = format!("{} builds, {}", z.builds.len(), t.describe());
    // another build, often of another job
    let mut others: Vec<&zuul::Rec> = z.builds.iter().filter(|b| b.uuid != target.uuid).collect();
    if others.iter().any(|b| b.job != target.job) && w.chance(3, 4) {
        others.retain(|b| b.job != target.job);
    }
    let uuid = if others.is_empty() { target.uuid.clone() } else { w.pick(&others).uuid.clone() };
    let other = url.replace(&target.uuid, &uuid);
    let z = Rc::new(z);
    Job { net: Box::new(move || z.net()), body: Rc::new(move || whole(&url)), other: Rc::new(move || whole(&other)) }
}
/// From the url of a build to the report, which also tells the baseline that was found.
fn whole(url: &str) -> Vec<u8> {
    let run = || -> anyhow::Result<W> {
        let c = content(url)?;
        let b = c.discover_baselines()?;
        let names: Vec<String> = b.iter().map(|b| b.to_string()).collect();
        let m = logreduce_model::Model::train(logreduce_model::OutputMode::Quiet, b, logreduce_model::hashing_index::new)?;
        let rep = m.report(logreduce_model::OutputMode::Quiet, c)?;
        let mut out = W::default();
        out.n(1);
        put_report(&mut out, &rep);
        out.s(&names.join(" "));
        Ok(out)
    };
    match run() {
        Ok(o) => o.0,
        Err(e) => {
            let mut out = W::default();
            out.n(0).s(&format!("{:#}", e));
            out.0
        }
    }
}
/// The report and what follows it.
fn outcome(o: &Out) -> Result<(Canon, String), String> {
    let mut r = R(&o.result);
    if r.n() == 1 {
        let c = get_report(&mut r);
        Ok((c, if r.done() { String::new() } else { r.s() }))
    } else {
        Err(r.s())
    }
}
fn agree(got: Result<(Canon, String), String>, want: &Result<(Canon, String), String>, what: &str) -> Verdict {
    match (&got, want) {
        (Ok(g), Ok(w)) => {
            ensure!(g.1 == w.1, "baseline", "{}: baseline {}, expected {}", what, g.1, w.1);
            same(&g.0, &w.0, what)
        }
        (Err(e), Ok(_)) => Err(Viol::new("failed", format!("{} failed: {}", what, e))),
        (Ok(_), Err(e)) => Err(Viol::new("invented", format!("{} gave a report, but an empty cache gives an error: {}", what, e))),
        (Err(_), Err(_)) => Ok(()),
    }
}

fn c11_site(ctx: &mut Ctx) -> Verdict {
    let j = site_job(ctx, true);
    c11(ctx, j, false)
}
fn c11_zuul(ctx: &mut Ctx) -> Verdict {
    let j = zuul_job(ctx);
    c11(ctx, j, true)
}
fn c11(ctx: &mut Ctx, j: Job, api: bool) -> Verdict {
    let cached = ctx.w.chance(7, 8);
    let o = ctx.phase("with an empty cache", env(PhaseCfg::calm(), "cache0", cached), (j.net)(), j.body());
    ended(&o)?;
    let want = outcome(&o);
    let n = 1 + ctx.w.below(3);
    for k in 0..n {
        let w = &mut ctx.w;
        let p = match w.below(5) {
            0 => FaultPlan { rate: 20, single_at: None, max: 4 },
            1 => FaultPlan { rate: 6, single_at: None, max: 10 },
            2 => FaultPlan { rate: 0, single_at: Some(w.below(20)), max: 1 },
            _ => FaultPlan { rate: 0, single_at: Some(log_uniform(w, 300)), max: 1 },
        };
        let mut cfg = env(PhaseCfg::default(), "cache", cached).fault(p);
        match w.below(4 + api as u64) {
            4 => cfg = cfg.fault(FaultPlan { rate: 2, single_at: None, max: 2 }).net_faults(&[HTTP_WRONG]),
            0 => cfg = cfg.net_faults(NET),
            1 => cfg = cfg.scope("cache/", DISK),
            2 => cfg = cfg.scope("cache/", &[CRASH, CRASH_TORN, POWER_LOSS, POWER_HOLES]),
            _ => cfg = cfg.net_faults(NET).scope("cache/", DISK),
        }
        // (numbers of processes are used again)
        cfg.pid = if ctx.w.chance(1, 3) { 4242 } else { 100 + k as i32 };
        let body = if ctx.w.chance(1, 4) { j.other() } else { j.body() };
        let o = ctx.phase("under faults", cfg, (j.net)(), body);
        if o.end != End::Crash {
            ended(&o)?;
        }
        ctx.nontrivial |= !o.harmful().is_empty();
    }
    for what in ["the run after the faults", "the run after that"] {
        let o = ctx.phase(what, env(PhaseCfg::default(), "cache", cached), (j.net)(), j.body());
        ended(&o)?;
        agree(outcome(&o), &want, what)?;
    }
    Ok(())
}
fn c12_site(ctx: &mut Ctx) -> Verdict {
    let j = site_job(ctx, true);
    c12(ctx, j)
}
fn c12_zuul(ctx: &mut Ctx) -> Verdict {
    let j = zuul_job(ctx);
    c12(ctx, j)
}
fn c12(ctx: &mut Ctx, j: Job) -> Verdict {
    let cached = ctx.w.chance(7, 8);
    let o = ctx.phase("alone", env(PhaseCfg::calm(), "cache0", cached), (j.net)(), j.body());
    ended(&o)?;
    let want = outcome(&o);
    let mut a = env(PhaseCfg::default(), "cache", cached);
    let mut b = env(PhaseCfg::default(), "cache", cached);
    a.pid = 100;
    // processes in different containers may have the same number
    b.pid = if ctx.w.chance(1, 4) { 100 } else { 101 };
    let n = 1 + ctx.w.below(2);
    let differ = ctx.w.chance(1, 4);
    let second = if differ {
        let o = ctx.phase("the other one alone", env(PhaseCfg::calm(), "cache1", cached), (j.net)(), j.other());
        ended(&o)?;
        outcome(&o)
    } else {
        want.clone()
    };
    for _ in 0..n {
        let (oa, ob) = ctx.phase2("two runs", (a.clone(), (j.net)(), j.body()), (b.clone(), (j.net)(), if differ { j.other() } else { j.body() }));
        ended(&oa)?;
        ended(&ob)?;
        agree(outcome(&oa), &want, "the first of two runs at the same time")?;
        agree(outcome(&ob), &second, "the second of two runs at the same time")?;
        ctx.nontrivial = true;
    }
    let o = ctx.phase("afterwards", env(PhaseCfg::default(), "cache", cached), (j.net)(), j.body());
    ended(&o)?;
    agree(outcome(&o), &want, "the run after two at the same time")
}

// ---- without the servers -------------------------------------------------------
fn c18_site(ctx: &mut Ctx) -> Verdict {
    let j = site_job(ctx, false);
    c18(ctx, j, true)
}
fn c18_zuul(ctx: &mut Ctx) -> Verdict {
    let j = zuul_job(ctx);
    c18(ctx, j, false)
}
/// The servers are gone, fail, or have something else now.
fn gone(w: &mut Choices, j: &Job, mut cfg: PhaseCfg) -> (PhaseCfg, Net) {
    match w.below(5) {
        0 | 1 => (cfg, Net::default()),
        2 => {
            cfg = cfg.fault(FaultPlan { rate: 1, single_at: None, max: 100_000 }).net_faults(&[*w.pick(&[CONN_REFUSED, HTTP_5XX, HTTP_BUSY, RESET_EARLY, CONN_TIMEOUT])]);
            (cfg, (j.net)())
        }
        3 => (cfg, Net::new(&["logs.sim", "zuul.sim", "other.sim"], Box::new(|_| Resp::status(404, "all gone\n")))),
        _ => (cfg, Net::new(&["logs.sim", "zuul.sim", "other.sim"], Box::new(|_| Resp::ok("[\"a line that nobody knows\"]\n")))),
    }
}
fn c18(ctx: &mut Ctx, j: Job, strict: bool) -> Verdict {
    let o = ctx.phase("with an empty cache", env(PhaseCfg::calm(), "cache0", true), (j.net)(), j.body());
    ended(&o)?;
    let want = outcome(&o);
    let complete = match &want {
        Ok(c) => c.0.read_errors.is_empty(),
        Err(_) => false,
    };
    // earlier runs, which may have been hit by anything
    for k in 0..ctx.w.below(3) {
        let w = &mut ctx.w;
        let p = match w.below(3) {
            0 => FaultPlan { rate: 12, single_at: None, max: 5 },
            1 => FaultPlan { rate: 0, single_at: Some(w.below(20)), max: 1 },
            _ => FaultPlan { rate: 0, single_at: Some(log_uniform(w, 300)), max: 1 },
        };
        let mut cfg = env(PhaseCfg::default(), "cache", true).fault(p).net_faults(NET).scope("cache/", DISK);
        cfg.pid = 100 + k as i32;
        let body = if ctx.w.chance(1, 4) { j.other() } else { j.body() };
        let o = ctx.phase("under faults", cfg, (j.net)(), body);
        if o.end != End::Crash {
            ended(&o)?;
        }
    }
    // one that reads everything
    let two = ctx.w.chance(1, 4);
    if two {
        let c = env(PhaseCfg::default(), "cache", true);
        let (a, b) = ctx.phase2("two runs", (PhaseCfg { pid: 100, ..c.clone() }, (j.net)(), j.body()), (PhaseCfg { pid: 101, ..c }, (j.net)(), j.body()));
        ended(&a)?;
        ended(&b)?;
        agree(outcome(&a), &want, "the first of two runs")?;
        agree(outcome(&b), &want, "the second of two runs")?;
    } else {
        let o = ctx.phase("with the servers", env(PhaseCfg::default(), "cache", true), (j.net)(), j.body());
        ended(&o)?;
        agree(outcome(&o), &want, "the run with the servers")?;
    }
    if !complete {
        return Ok(());
    }
    for what in ["without the servers", "without the servers again"] {
        let c = env(PhaseCfg::default(), "cache", true);
        let (cfg, net) = gone(&mut ctx.w, &j, c);
        let o = ctx.phase(what, cfg, net, j.body());
        ended(&o)?;
        agree(outcome(&o), &want, what)?;
        ensure!(!strict || o.requests == 0, "asked-again", "{}: {} requests, although the cache has everything", what, o.requests);
    }
    ctx.nontrivial = want.as_ref().is_ok_and(|c| !c.0.logs.is_empty());
    Ok(())
}

// ---- the entries themselves ---------------------------------------------------
/// A remote source: its content, how far it gets, and in which portions.
struct Remote {
    data: Vec<u8>,
    pos: usize,
    fail_at: Option<usize>,
    seg: Rng,
}
impl Read for Remote {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fail_at == Some(self.pos) {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "reset"));
        }
        let end = self.fail_at.unwrap_or(self.data.len());
        let mut n = buf.len().min(end - self.pos);
        if n > 1 && self.seg.chance(1, 2) {
            n = 1 + self.seg.below(n as u64) as usize;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Clone, Debug)]
enum Op {
    /// url, content, bytes to take (more than there are: to the end), where the source fails
    Add(usize, u64, usize, Option<usize>),
    Get(usize),
    DirAdd(usize, u64),
    DirGet(usize),
    HeadSet(usize, bool),
    Head(usize),
}
fn data(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let n = match seed % 4 {
        0 => 0,
        1 => r.below(40),
        2 => r.below(3000),
        _ => 20_000 + r.below(200_000),
    };
    (0..n).map(|_| if r.chance(1, 3) { b'a' } else { r.next() as u8 }).collect()
}
fn dir(seed: u64) -> Vec<Url> {
    let mut r = Rng::new(seed);
    (0..r.below(60)).map(|_| Url::parse(&format!("http://logs.sim/{}/{}", word(&mut r), word(&mut r))).unwrap()).collect()
}
fn urls(i: usize) -> (Url, Url) {
    // urls that are easily confused
    let u = ["http://logs.sim/logs/f", "http://logs.sim/logs/f?a=1", "http://logs.sim/logs/f?a=2", "http://logs.sim:81/logs/f", "https://logs.sim/logs/f", "http://mirror.sim/logs/F"][i];
    let base = Url::parse(u).unwrap().join(if i % 2 == 0 { "." } else { "/logs/x/" }).unwrap();
    (base, Url::parse(u).unwrap())
}
/// The content of a url is always the same.
fn seed_of(base: u64, i: usize) -> u64 {
    base.wrapping_add(i as u64 * 7)
}
fn ops(w: &mut Choices, base: u64) -> Vec<Op> {
    let n = 1 + w.below(10);
    (0..n)
        .map(|_| {
            let u = w.below(6) as usize;
            let s = seed_of(base, u);
            let len = data(s).len() as u64;
            match w.weighted(&[5, 4, 2, 2, 1, 1]) {
                0 => {
                    let take = if w.chance(1, 2) { usize::MAX } else { w.below(len + 1) as usize };
                    Op::Add(u, s, take, if w.chance(1, 4) { Some(w.below(len + 1) as usize) } else { None })
                }
                1 => Op::Get(u),
                2 => Op::DirAdd(u, s),
                3 => Op::DirGet(u),
                4 => Op::HeadSet(u, s % 2 == 0),
                _ => Op::Head(u),
            }
        })
        .collect()
}
/// Runs the operations; the outcome of each is 0: error, 1: absent or done, 2: content (as hash).
fn operate(ops: &[Op]) -> Vec<u8> {
    let cache = match logreduce_cache::Cache::new() {
        Ok(c) => c,
        Err(_) => return vec![],
    };
    let mut out = W::default();
    for (k, op) in ops.iter().enumerate() {
        let mut put = |a: u64, b: u64, s: &str| {
            out.n(k as u64).n(a).n(b).s(s);
        };
        match op {
            Op::Add(u, s, take, fail) => {
                let (b, p) = urls(*u);
                let d = data(*s);
                let r = Remote { data: d.clone(), pos: 0, fail_at: *fail, seg: Rng::new(*s + k as u64) };
                match cache.remote_add(&b, &p, r) {
                    Err(e) => put(0, 0, &format!("{:#}", e)),
                    Ok(mut r) => {
                        let mut got = Vec::new();
                        let mut buf = vec![0; 8192];
                        let res = loop {
                            if got.len() >= *take {
                                break Ok(());
                            }
                            match r.read(&mut buf) {
                                Ok(0) => break Ok(()),
                                Ok(n) => got.extend_from_slice(&buf[..n]),
                                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                                Err(e) => break Err(e),
                            }
                        };
                        let right = d.starts_with(&got);
                        match res {
                            Ok(()) => put(1, right as u64, ""),
                            Err(e) => put(0, right as u64, &e.to_string()),
                        }
                    }
                }
            }
            Op::Get(u) => {
                let (b, p) = urls(*u);
                match cache.remote_get(&b, &p) {
                    None => put(1, 0, ""),
                    Some(Err(e)) => put(0, 0, &format!("{:#}", e)),
                    Some(Ok(mut r)) => {
                        let mut d = Vec::new();
                        match r.read_to_end(&mut d) {
                            Ok(_) => put(2, hash_bytes(&d), &d.len().to_string()),
                            Err(e) => put(0, 0, &e.to_string()),
                        }
                    }
                }
            }
            Op::DirAdd(u, s) => match cache.httpdir_add(&urls(*u).1, &dir(*s)) {
                Ok(()) => put(1, 0, ""),
                Err(e) => put(0, 0, &format!("{:#}", e)),
            },
            Op::DirGet(u) => match cache.httpdir_get(&urls(*u).1) {
                None => put(1, 0, ""),
                Some(Err(e)) => put(0, 0, &format!("{:#}", e)),
                Some(Ok(v)) => put(2, hash_str(&format!("{:?}", v.iter().map(|u| u.as_str()).collect::<Vec<_>>())), &v.len().to_string()),
            },
            Op::HeadSet(u, v) => {
                let (b, p) = urls(*u);
                match cache.head_set(&b, &p, *v) {
                    Ok(x) => put(1, (x == *v) as u64, ""),
                    Err(e) => put(0, 0, &format!("{:#}", e)),
                }
            }
            Op::Head(u) => {
                let (b, p) = urls(*u);
                match cache.head(&b, &p) {
                    None => put(1, 0, ""),
                    Some(v) => put(2, v as u64, ""),
                }
            }
        }
    }
    out.0
}
/// Which entries have been stored completely: certainly, or possibly.
#[derive(Default, Clone)]
struct Model {
    sure: BTreeMap<(u32, usize), bool>,
}
impl Model {
    /// Check the outcomes; `hurt`: the process was hit by a harmful fault, so that anything may have failed.
    fn check(&mut self, ops: &[Op], o: &Out, base: u64, hurt: bool, strict: bool, what: &str) -> Verdict {
        let mut r = R(&o.result);
        // an interrupted write may keep an entry from being stored
        let certain = !o.faults.iter().any(|f| f.kind == WRITE_EINTR);
        let mut done = vec![None; ops.len()];
        while !r.done() {
            let k = r.n() as usize;
            done[k] = Some((r.n(), r.n(), r.s()));
        }
        for (k, op) in ops.iter().enumerate() {
            let res = &done[k];
            let key = match op {
                Op::Add(u, ..) | Op::Get(u) => (0, *u),
                Op::DirAdd(u, _) | Op::DirGet(u) => (1, *u),
                Op::HeadSet(u, _) | Op::Head(u) => (2, *u),
            };
            let (known, sure) = (self.sure.contains_key(&key), self.sure.get(&key) == Some(&true));
            let Some((st, x, text)) = res else {
                // killed before or in this operation, or no cache at all
                match op {
                    Op::Get(_) | Op::DirGet(_) | Op::Head(_) => {}
                    Op::Add(_, s, take, fail) if fail.is_some() || *take <= data(*s).len() => {}
                    _ => {
                        self.sure.entry(key).or_insert(false);
                    }
                }
                continue;
            };
            match op {
                Op::Add(_, s, take, fail) => {
                    let len = data(*s).len();
                    ensure!(*x == 1 || *st == 0 && text != "reset", "altered", "{}: reading through the cache gave other bytes ({:?})", what, op);
                    let complete = fail.is_none() && *take > len;
                    if *st == 1 {
                        // a source that was read up to its last byte may count as complete
                        if complete {
                            *self.sure.entry(key).or_insert(false) |= certain;
                        } else if fail.is_none() && *take >= len {
                            self.sure.entry(key).or_insert(false);
                        }
                    } else {
                        ensure!(hurt || fail.is_some(), "failed", "{}: {:?} failed: {}", what, op, text);
                        if fail.is_none() {
                            self.sure.entry(key).or_insert(false);
                        }
                    }
                }
                Op::DirAdd(..) | Op::HeadSet(..) => {
                    if *st == 1 {
                        *self.sure.entry(key).or_insert(false) |= certain;
                    } else {
                        ensure!(hurt, "failed", "{}: {:?} failed: {}", what, op, text);
                        self.sure.entry(key).or_insert(false);
                    }
                }
                Op::Get(u) | Op::DirGet(u) | Op::Head(u) => match st {
                    0 => ensure!(hurt, "failed", "{}: {:?} failed: {}", what, op, text),
                    1 => ensure!(hurt || !sure || !strict, "lost", "{}: {:?} found nothing, but it was stored", what, op),
                    _ => {
                        let s = seed_of(base, *u);
                        let want = match op {
                            Op::Get(_) => hash_bytes(&data(s)),
                            Op::DirGet(_) => hash_str(&format!("{:?}", dir(s).iter().map(|u| u.as_str()).collect::<Vec<_>>())),
                            _ => (s % 2 == 0) as u64,
                        };
                        ensure!(*x == want, "wrong", "{}: {:?} gave other content ({} bytes or urls) than was stored", what, op, text);
                        ensure!(known, "partial", "{}: {:?} gave content that was never stored completely", what, op);
                    }
                },
            }
        }
        Ok(())
    }
}
fn c11_entries(ctx: &mut Ctx) -> Verdict {
    let base = ctx.w.below(1 << 20);
    let mut m = Model::default();
    let n = 1 + ctx.w.below(3);
    for _ in 0..n {
        let w = &mut ctx.w;
        let list = ops(w, base);
        let p = match w.below(4) {
            0 => FaultPlan { rate: 20, single_at: None, max: 4 },
            1 => FaultPlan { rate: 5, single_at: None, max: 10 },
            _ => FaultPlan { rate: 0, single_at: Some(log_uniform(w, 100)), max: 1 },
        };
        let mut cfg = env(PhaseCfg::default(), "cache", true).fault(p);
        cfg = if w.chance(1, 3) { cfg.scope("cache/", &[CRASH, CRASH_TORN, POWER_LOSS, POWER_HOLES]) } else { cfg.scope("cache/", DISK) };
        // a process may fail again and again at the same point
        let times = if w.chance(1, 12) { 3 + w.below(6) } else { 1 };
        for _ in 0..times {
            let l = list.clone();
            let o = ctx.phase("cache operations under faults", cfg.clone(), Net::default(), Box::new(move || operate(&l)));
            if o.end != End::Crash {
                ended(&o)?;
            }
            ctx.nontrivial |= !o.harmful().is_empty();
            m.check(&list, &o, base, !o.harmful().is_empty(), true, "under faults")?;
        }
        ctx.case = format!("{} {:?}", ctx.case, list);
    }
    let mut list = ops(&mut ctx.w, base);
    for u in 0..6 {
        list.extend([Op::Get(u), Op::DirGet(u), Op::Head(u)]);
    }
    let l = list.clone();
    let o = ctx.phase("cache operations without faults", env(PhaseCfg::default(), "cache", true), Net::default(), Box::new(move || operate(&l)));
    ended(&o)?;
    m.check(&list, &o, base, false, true, "after the faults")
}
fn c12_entries(ctx: &mut Ctx) -> Verdict {
    let base = ctx.w.below(1 << 20);
    let mut a = env(PhaseCfg::default(), "cache", true);
    let mut b = a.clone();
    a.pid = 100;
    b.pid = if ctx.w.chance(1, 4) { 100 } else { 101 };
    let (la, lb) = (ops(&mut ctx.w, base), ops(&mut ctx.w, base));
    let (l1, l2) = (la.clone(), lb.clone());
    ctx.case = format!("{:?} {:?}", la, lb);
    let (oa, ob) = ctx.phase2("cache operations", (a.clone(), Net::default(), Box::new(move || operate(&l1))), (b, Net::default(), Box::new(move || operate(&l2))));
    ended(&oa)?;
    ended(&ob)?;
    ctx.nontrivial = la.len() > 1 && lb.len() > 1;
    // what the other one stores may be there or not
    let mut both = Model::default();
    for op in la.iter().chain(lb.iter()) {
        match op {
            Op::Add(u, s, take, None) if *take >= data(*s).len() => both.sure.insert((0, *u), false),
            Op::DirAdd(u, _) => both.sure.insert((1, *u), false),
            Op::HeadSet(u, _) => both.sure.insert((2, *u), false),
            _ => None,
        };
    }
    let mut ma = both.clone();
    let mut mb = both.clone();
    ma.check(&la, &oa, base, false, true, "first process")?;
    mb.check(&lb, &ob, base, false, true, "second process")?;
    // afterwards what either of them stored is there
    let mut all = ma;
    for (k, v) in mb.sure {
        let e = all.sure.entry(k).or_insert(false);
        *e |= v;
    }
    let list: Vec<Op> = (0..6).flat_map(|u| [Op::Get(u), Op::DirGet(u), Op::Head(u)]).collect();
    let l = list.clone();
    let o = ctx.phase("afterwards", env(PhaseCfg::default(), "cache", true), Net::default(), Box::new(move || operate(&l)));
    ended(&o)?;
    all.check(&list, &o, base, false, true, "afterwards")
}

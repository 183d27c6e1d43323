//! C13: discovery of baselines from a Zuul server.
use crate::gen::word;
use crate::lines::ended;
use crate::tree::content;
use crate::web::Site;
use crate::wire::{R, W};
use logreduce_model::Content;
use serde_json::{json, Value};
use simcore::*;
use std::rc::Rc;

pub const C13: Property = Property {
    id: "C13",
    scenarios: &[(Scenario { name: "choose", run: c13_choose }, 2), (Scenario { name: "faults", run: c13_faults }, 2)],
    quick_runs: 24_000,
    thorough_runs: 400_000,
    rule: "a run counts when at least two of the listed builds qualify and the best is not the first, or a fault hit a request; distinct by records, faults and schedule",
    real: "logreduce-model (zuul discovery, reader), zuul-build, logreduce-cache, reqwest, hyper and tokio, serde_json, chrono",
    stub: "sockets, name resolution, the Zuul API and log servers, the file system below the system call interface, clock and randomness",
    assumptions: &["the server lists builds as the Zuul API does: filtered by the query, at most as many as asked for", "an answer of 403, 404 or 410 for the logs of a build is taken as the truth about them"],
};

#[derive(Clone, Debug)]
pub struct Rec {
    pub uuid: String,
    pub job: String,
    pub result: String,
    pub project: String,
    pub branch: String,
    pub pipeline: String,
    pub voting: bool,
    /// seconds since the epoch
    pub end: i64,
    pub log_url: Option<String>,
    pub ref_url: Option<String>,
    pub change: Option<u64>,
    /// the record is damaged in this way
    pub odd: u64,
}
fn date(t: i64) -> String {
    chrono::NaiveDateTime::from_timestamp_opt(t, 0).unwrap().format("%Y-%m-%dT%H:%M:%S").to_string()
}
impl Rec {
    pub fn json(&self) -> Value {
        let mut v = json!({
            "uuid": self.uuid, "job_name": self.job, "result": self.result, "voting": self.voting, "final": true,
            "project": self.project, "branch": self.branch, "pipeline": self.pipeline, "duration": 42.5,
            "change": self.change, "patchset": "1", "ref": "refs/changes/94/22894/1", "ref_url": self.ref_url, "log_url": self.log_url,
            "artifacts": [{"name": "manifest", "url": "http://logs.sim/zuul-manifest.json", "metadata": {"type": "x"}}],
            "start_time": date(self.end - 100), "end_time": date(self.end), "event_id": "40d9b63d749c48eabb3d7918cfab0d31",
        });
        let o = v.as_object_mut().unwrap();
        match self.odd {
            1 => {
                o.remove("uuid");
            }
            2 => {
                o.insert("uuid".into(), Value::Null);
            }
            3 => {
                o.insert("end_time".into(), Value::Null);
            }
            4 => {
                o.insert("end_time".into(), json!("2022-02-30T25:61:00"));
            }
            5 => {
                o.insert("log_url".into(), json!("not a url"));
            }
            6 => {
                o.insert("artifacts".into(), json!({"name": 1}));
            }
            7 => {
                o.insert("change".into(), json!(-1));
            }
            8 => {
                o.insert("project".into(), Value::Null);
            }
            9 => return json!("gone"),
            10 => return json!([1, 2]),
            11 => {
                // an odd value that is fine
                o.insert("duration".into(), json!(1e30));
                o.insert("extra".into(), json!({"a": [1]}));
            }
            _ => {}
        }
        v
    }
    /// The record can be understood and names its logs.
    fn usable(&self) -> bool {
        (self.odd == 0 || self.odd == 11) && self.log_url.is_some() && self.ref_url.is_some() && self.change.is_some()
    }
}
#[derive(Clone, Default)]
pub struct Zuul {
    /// in the order the server lists them
    pub builds: Vec<Rec>,
    pub logs: Site,
    /// path of the api
    pub api: String,
    pub host: String,
}
fn params(q: &str) -> Vec<(String, String)> {
    let u = url::Url::parse(&format!("http://x{}", q)).unwrap();
    u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect()
}
impl Zuul {
    pub fn answer(&self, q: &Req) -> Resp {
        if q.host != self.host {
            return self.logs.answer(q);
        }
        let path = q.path.split('?').next().unwrap();
        let Some(rest) = path.strip_prefix(&self.api) else { return Resp::status(404, "not the api") };
        if rest == "builds" {
            let ps = params(&q.path);
            let mut limit = 50;
            let mut out = Vec::new();
            for (k, v) in &ps {
                if k == "limit" {
                    limit = v.parse().unwrap_or(50);
                }
            }
            for b in &self.builds {
                let fits = ps.iter().all(|(k, v)| match k.as_str() {
                    "job_name" => b.job == *v,
                    "result" => b.result == *v,
                    "project" => b.project == *v,
                    "branch" => b.branch == *v,
                    "pipeline" => b.pipeline == *v,
                    "voting" => b.voting.to_string() == *v,
                    "uuid" => b.uuid == *v,
                    _ => true,
                });
                if fits && out.len() < limit {
                    out.push(b.json());
                }
            }
            return Resp::json(Value::from(out).to_string());
        }
        if let Some(uid) = rest.strip_prefix("build/") {
            if let Some(b) = self.builds.iter().find(|b| b.uuid == uid) {
                return Resp::json(b.json().to_string());
            }
        }
        Resp::status(404, "{\"code\": 404}")
    }
    pub fn net(self: &Rc<Self>) -> Net {
        let s = self.clone();
        Net::new(&[&self.host, "logs.sim", "other.sim"], Box::new(move |q| s.answer(q)))
    }
    fn qualifies(&self, target: &Rec, b: &Rec) -> bool {
        b.usable() && b.uuid != target.uuid && b.result == "SUCCESS" && b.job == target.job
    }
    /// The builds discovery may consider, best first.
    pub fn ranked(&self, target: &Rec, now: i64) -> Vec<&Rec> {
        let mut v: Vec<(i64, &Rec)> = self.builds.iter().filter(|b| self.qualifies(target, b)).map(|b| (score(target, b, now), b)).collect();
        v.sort_by_key(|x| -x.0);
        v.into_iter().map(|x| x.1).collect()
    }
    pub fn available(&self, b: &Rec) -> bool {
        b.log_url.as_deref().and_then(|u| u.strip_prefix("http://logs.sim")).is_some_and(|p| self.logs.get(p).is_some())
    }
}
fn score(t: &Rec, b: &Rec, now: i64) -> i64 {
    let mut s = 0;
    if t.project == b.project {
        s += if t.change == b.change { -500 } else { 50 };
    }
    if t.branch == b.branch {
        s += 50;
    }
    if b.pipeline.contains("gate") || b.pipeline.contains("periodic") {
        s += 50;
    }
    if b.voting {
        s += 10;
    }
    s - (now.div_euclid(86400) - b.end.div_euclid(86400)).max(0)
}
pub fn uid(r: &mut Rng) -> String {
    (0..32).map(|_| b"0123456789abcdef"[r.below(16) as usize] as char).collect()
}
pub const NOW: i64 = 1_700_000_000;

/// A server with builds around a target, which is the first build it knows.
pub fn server(w: &mut Choices, odd: bool) -> (Zuul, Rec, String) {
    let mut r = w.bulk();
    let multi = w.chance(1, 2);
    let (api, base) = if multi { ("/zuul/api/tenant/acme/", "http://zuul.sim/zuul/t/acme/build/") } else { ("/zuul/api/", "http://zuul.sim/zuul/build/") };
    let mut z = Zuul { api: api.into(), host: "zuul.sim".into(), ..Default::default() };
    let job = w.pick(&["tox-py38", "build & test", "job/with+odd?chars=é"]).to_string();
    let projects: Vec<String> = (0..2).map(|_| format!("acme/{}", word(&mut r))).collect();
    let mut projects = projects;
    let mut branches = vec!["master", "stable/1.0"];
    if w.chance(1, 4) {
        // names that begin or end alike, or differ by case
        branches = vec!["master", *w.pick(&["master-next", "feature/master", "maste", "Master"])];
        projects[1] = match w.below(3) {
            0 => format!("{}-tests", projects[0]),
            1 => format!("openacme/{}", &projects[0][5..]),
            _ => projects[0][..projects[0].len() - 1].to_string(),
        };
    }
    // most logs may be gone
    let kept = *w.pick(&[40u64, 40, 40, 2]);
    let target = Rec {
        uuid: uid(&mut r),
        job: job.clone(),
        result: w.pick(&["FAILURE", "SUCCESS"]).to_string(),
        project: projects[0].clone(),
        branch: branches[0].into(),
        pipeline: "check".into(),
        voting: true,
        end: NOW - w.below(3) as i64 * 40_000,
        log_url: Some("http://logs.sim/target/".into()),
        ref_url: Some("http://review.sim/1".into()),
        change: Some(1000),
        odd: 0,
    };
    z.logs.put("/target/job-output.txt", b"a line\n");
    let n = match w.below(8) {
        0 if w.chance(1, 12) => 180 + w.below(280),
        0 => 55 + w.below(80),
        1 => 0,
        _ => 1 + w.below(9),
    };
    let spread = *w.pick(&[3i64, 40, 700]);
    for i in 0..n {
        let log = format!("/log{}/", i);
        if w.chance(kept, 50) {
            z.logs.put(&format!("{}job-output.txt", log), b"a line\n");
        }
        let days = w.below(spread as u64) as i64;
        let b = Rec {
            uuid: if w.chance(1, 12) { format!("{}{}", &target.uuid[..8 + i as usize % 20], &uid(&mut r)[8 + i as usize % 20..]) } else { uid(&mut r) },
            job: if w.chance(1, 8) { "other".into() } else { job.clone() },
            result: if w.chance(1, 8) { "FAILURE".into() } else { "SUCCESS".into() },
            project: w.pick(&projects).clone(),
            branch: w.pick(&branches).to_string(),
            pipeline: w.pick(&["check", "gate", "periodic-nightly", "post", "merge-gate", "experimental"]).to_string(),
            voting: w.chance(1, 2),
            end: NOW - days * 86400 + w.below(100_000) as i64 - 50_000,
            log_url: if w.chance(1, 12) { None } else { Some(format!("http://logs.sim{}", log)) },
            ref_url: if w.chance(1, 16) { None } else { Some(format!("http://review.sim/{}", i)) },
            change: if w.chance(1, 10) { None } else { Some(998 + w.below(5)) },
            odd: if odd && w.chance(1, 8) { 1 + w.below(11) } else { 0 },
        };
        z.builds.push(b);
    }
    let at = w.below(z.builds.len() as u64 + 1) as usize;
    z.builds.insert(at, target.clone());
    let url = format!("{}{}", base, target.uuid);
    (z, target, url)
}

/// The uuids of the discovered builds, or the error.
fn discover(url: &str) -> Vec<u8> {
    let mut out = W::default();
    match content(url).and_then(|c| c.discover_baselines()) {
        Ok(v) => {
            out.n(1).n(v.len() as u64);
            for c in v {
                match c {
                    Content::Zuul(b) => out.s(&b.uuid),
                    c => out.s(&c.to_string()),
                };
            }
        }
        Err(e) => {
            out.n(0).s(&format!("{:#}", e));
        }
    }
    out.0
}
fn found(o: &Out) -> Result<Vec<String>, String> {
    let mut r = R(&o.result);
    if r.n() == 1 {
        Ok((0..r.n()).map(|_| r.s()).collect())
    } else {
        Err(r.s())
    }
}
fn judge(got: Result<Vec<String>, String>, want: Option<&Rec>, what: &str) -> Verdict {
    match (got, want) {
        (Ok(g), Some(b)) => ensure!(g == [b.uuid.clone()], "choice", "{}: {:?} was chosen, the best is {:?}", what, g, b),
        (Err(e), Some(b)) => ensure!(false, "no-choice", "{}: discovery failed ({}), the best is {:?}", what, e, b),
        (Ok(g), None) => ensure!(false, "bad-choice", "{}: {:?} was chosen, no build qualifies", what, g),
        (Err(_), None) => {}
    }
    Ok(())
}

fn c13_choose(ctx: &mut Ctx) -> Verdict {
    let (z, target, url) = server(&mut ctx.w, true);
    let mut cfg = PhaseCfg::default();
    // the clock may be off by hours or years
    let skew = match ctx.w.below(6) {
        0 => -(ctx.w.below(400) as i64) * 86_400,
        1 => ctx.w.below(400) as i64 * 86_400,
        2 => ctx.w.below(200_000) as i64 - 100_000,
        _ => 0,
    };
    cfg.wall_base = NOW + skew;
    if ctx.w.chance(1, 3) {
        cfg.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
    }
    let now = NOW + skew;
    // the date may change during the run
    let day = |t: i64| t.div_euclid(86400);
    if day(now) != day(now + 400) {
        cfg.wall_base -= 1000;
    }
    let now = cfg.wall_base;
    let z = Rc::new(z);
    let rank = z.ranked(&target, now);
    let want = rank.iter().find(|b| z.available(b)).copied();
    ctx.nontrivial = rank.len() > 1 && want.map(|b| &b.uuid) != z.builds.first().map(|b| &b.uuid);
    ctx.case = format!("{} builds, {} qualify", z.builds.len(), rank.len());
    let u = url.clone();
    let o = ctx.phase("discover", cfg, z.net(), Box::new(move || discover(&u)));
    ended(&o)?;
    judge(found(&o), want, "discovery")
}

/// Failing requests: the best build whose logs answer is taken, and nothing of it is remembered.
fn c13_faults(ctx: &mut Ctx) -> Verdict {
    let (z, target, url) = server(&mut ctx.w, true);
    let cached = ctx.w.chance(2, 3);
    let z = Rc::new(z);
    let rank: Vec<Rec> = z.ranked(&target, NOW).into_iter().cloned().collect();
    let kinds: Vec<u32> = [RESET_EARLY, RESET_MID, TRUNC, STALL_HEAD, STALL_MID, HTTP_5XX, HTTP_BUSY, GARBAGE, BAD_GZIP, HTTP_WRONG].into_iter().chain((!cached).then_some(HTTP_4XX)).collect();
    let n = 1 + ctx.w.below(2);
    for k in 0..n {
        let p = match ctx.w.below(3) {
            0 => FaultPlan { rate: 2, single_at: None, max: 6 },
            _ => FaultPlan { rate: 0, single_at: Some(ctx.w.below(6)), max: 1 },
        };
        let mut cfg = PhaseCfg::default().fault(p).net_faults(&kinds);
        if cached {
            cfg.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
        }
        let u = url.clone();
        let o = ctx.phase("discover under faults", cfg, z.net(), Box::new(move || discover(&u)));
        ended(&o)?;
        let harm = o.harmful();
        ctx.nontrivial |= !harm.is_empty();
        let hit = |m: &str, u: &str| harm.iter().any(|f| f.what == format!("{} {}", m, u));
        let api = harm.iter().any(|f| f.what.contains("//zuul.sim/"));
        // (with a cache, a build may have been seen before)
        let want = rank.iter().find(|b| z.available(b) && !hit("HEAD", b.log_url.as_ref().unwrap()));
        let got = found(&o);
        if !(api && got.is_err()) {
            judge(got, want, &format!("discovery {} under {:?}", k, harm.iter().map(|f| &f.what).collect::<Vec<_>>()))?;
        }
    }
    let mut cfg = PhaseCfg::default();
    if cached {
        cfg.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
    }
    ctx.case = format!("{} builds, {} qualify, {}", z.builds.len(), rank.len(), if cached { "cached" } else { "" });
    let o = ctx.phase("discover after the faults", cfg, z.net(), Box::new(move || discover(&url)));
    ended(&o)?;
    judge(found(&o), rank.iter().find(|b| z.available(b)), "discovery after the faults")
}

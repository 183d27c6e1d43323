//! Log trees with known classification, what a report over them has to say, and reports in canonical form.
use crate::gen::*;
use crate::lines::pieces;
use crate::proc::{get_anoms, log, put_anoms};
use crate::wire::{R, W};
use logreduce_model::Report;
use simcore::*;
use std::collections::{BTreeMap, HashSet};

pub struct TFile {
    /// path below the root of its tree
    pub rel: String,
    pub group: usize,
    pub data: Vec<u8>,
}
pub struct Group {
    pub dir: String,
    pub name: String,
    pub ext: &'static str,
    pub style: u64,
    pub json: bool,
    pub world: usize,
    pub trained: bool,
}
impl Group {
    fn path(&self, prefix: &str, i: usize) -> String {
        let n = &self.name;
        let f = match (self.style, self.json) {
            (0, false) => format!("{}.{}.{}", n, self.ext, i),
            (1, false) => format!("{}.{}.2022-01-{:02}", n, self.ext, i),
            (3, false) => return format!("{}pod/{}-7fdb5{:04x}f-q{:02x}zk.{}", prefix, n, i * 977, i, self.ext),
            (4, false) => format!("k8s_{}-328297fa-9941-4df5-b34f-336f02c7{:04x}.{}", n, i * 131, self.ext),
            (5, false) => format!("{:07x}/{}.{}", 0xabc0000 + i * 3571, n, self.ext),
            (6, false) => return format!("{}qemu/instance-{:08x}.{}", prefix, i * 17, self.ext),
            _ => format!("{}{}.{}", n, i, self.ext),
        };
        let d = if self.dir.is_empty() { String::new() } else { format!("{}{}/", prefix, self.dir) };
        format!("{}{}", d, f)
    }
}
pub struct Tree {
    pub groups: Vec<Group>,
    pub worlds: Vec<World>,
    pub base: Vec<TFile>,
    pub target: Vec<TFile>,
    /// files no report shall mention
    pub noise: Vec<(String, Vec<u8>)>,
    /// every other baseline file is in a second tree
    pub split: bool,
}

pub struct Shape {
    pub groups: u64,
    pub files: u64,
    /// new lines may occur in several files of a group
    pub shared: bool,
    pub big: bool,
    /// some target groups lack a baseline
    pub orphans: bool,
    pub json: bool,
    /// how files of a group are told apart
    pub style: Option<u64>,
    /// a group may have dozens of files
    pub many: bool,
    /// there may be two baselines
    pub split: bool,
    /// some names begin with a dot
    pub dots: bool,
}
impl Default for Shape {
    fn default() -> Shape {
        Shape { groups: 4, files: 4, shared: false, big: true, orphans: true, json: true, style: None, many: false, split: false, dots: false }
    }
}

fn small(w: &mut Choices, world: &mut World, fresh: &[(Template, u64)], shared: bool) -> Vec<u8> {
    let n = 1 + w.below(14);
    let mut r = w.bulk();
    let mut out = Vec::new();
    for i in 0..n {
        let l = if r.chance(1, 4) {
            if shared || r.chance(1, 4) {
                let f = fresh[r.below(fresh.len() as u64) as usize].clone();
                world.novel(&f)
            } else {
                let f = world.fresh();
                world.novel(&f)
            }
        } else if r.chance(1, 3) {
            world.filler()
        } else {
            world.any_known()
        };
        out.extend_from_slice(l.as_bytes());
        if i + 1 < n || r.chance(3, 4) {
            out.push(b'\n');
        }
    }
    out
}

pub fn tree(w: &mut Choices, s: &Shape) -> Tree {
    let ng = 1 + w.below(s.groups) as usize;
    let mut r = w.bulk();
    let mut groups: Vec<Group> = Vec::new();
    let mut worlds: Vec<World> = Vec::new();
    // new lines that occur in several groups
    let mut ws = Words::default();
    let common: Vec<Template> = (0..2).map(|_| Template::new(&mut r, &mut ws)).collect();
    // logs of the same name in most of the directories
    let kin = ng > 2 && w.chance(1, 5);
    for g in 0..ng {
        let n = 1 + w.below(6) as usize;
        worlds.push(World::chained(w.bulk(), n, &mut ws));
        let json = s.json && w.chance(1, 6);
        let trained = g == 0 || !s.orphans || !w.chance(1, if kin { 2 } else { 4 });
        let other = (g > 0 && if kin { r.chance(4, 5) } else { r.chance(1, 5) }).then(|| groups[r.below(g as u64) as usize].name.clone());
        let name = other.clone().unwrap_or_else(|| loop {
            // some names have parts that would make a file irrelevant elsewhere in its path
            let n = match r.below(40) {
                0 => format!("etc{}", word(&mut r)),
                1 => format!("{}.{}.{}", word(&mut r), r.pick(&["yaml", "db", "html", "ini", "conf", "png", "tar", "bin", "subunit"]), word(&mut r)),
                3 if s.dots => format!(".{}", word(&mut r)),
                2 => format!("{}{}", word(&mut r), r.pick(&["cacerts", "yaml", "conf", "html", "db"])),
                _ => word(&mut r),
            };
            if !groups.iter().any(|x| x.name == n || x.dir == n) {
                break n;
            }
        });
        let dir = if w.chance(1, 5) && other.is_none() { String::new() } else { loop {
            let n = match r.below(40) {
                0 => format!("etc{}", word(&mut r)),
                1 => format!("{}etc", word(&mut r)),
                3 if s.dots => format!(".{}", word(&mut r)),
                2 => format!("{}.{}", word(&mut r), r.pick(&["conf", "d", "html", "yaml"])),
                _ => word(&mut r),
            };
            if n != name && !groups.iter().any(|x| x.name == n || x.dir == n) {
                break n;
            }
        } };
        let ext = if json {
            "json"
        } else if kin && !groups.is_empty() && !groups[0].json {
            groups[0].ext
        } else {
            *w.pick(&["log", "txt", "log.txt"])
        };
        let mut style = s.style.unwrap_or_else(|| if w.chance(1, 4) { 3 + w.below(4) } else { w.below(3) });
        // the same name in another directory is another log
        if other.is_some() && [3, 4].contains(&style) || style == 6 && groups.iter().any(|x| x.style == 6) {
            style = 2;
        }
        groups.push(Group { dir, name, ext, style, json, world: g, trained });
    }
    // a model with a single index is applied to everything
    if groups.iter().filter(|g| g.trained).count() == 1 {
        for g in groups.iter_mut() {
            g.world = 0;
        }
    }
    let mut base = Vec::new();
    let mut target = Vec::new();
    for g in 0..ng {
        let gr = &groups[g];
        let world = &mut worlds[gr.world];
        if gr.trained {
            let nb = 1 + w.below(3) as usize;
            for i in 0..nb {
                let mut d = Vec::new();
                for t in 0..world.base.len() {
                    if t % nb == i {
                        d.extend_from_slice(world.known(t).as_bytes());
                        d.push(b'\n');
                    }
                }
                base.push(TFile { rel: gr.path("", i), group: g, data: d });
            }
        }
        let nf = if s.many && w.chance(1, 30) { 15 + w.below(25) } else { w.below(s.files + 1) } as usize;
        let fresh: Vec<_> = (0..3).map(|_| world.fresh()).collect();
        let prefixed = w.chance(1, 4);
        let deep = if prefixed && w.chance(1, 6) { "d/".repeat(3 + w.below(14) as usize) } else { String::new() };
        let across: Vec<_> = common.iter().map(|t| (t.clone(), world.cls.class())).collect();
        for i in 0..nf {
            let mut d = if s.big && !s.shared && w.chance(1, 12) {
                log(w, world, gr.json)
            } else {
                let own: Vec<_> = if s.shared { fresh.clone() } else { (0..2).map(|_| world.fresh()).collect() };
                small(w, world, &own, s.shared)
            };
            if !gr.json && (s.shared || i == 0) && w.chance(1, 4) {
                let f = w.pick(&across).clone();
                let l = format!("{}\n", world.novel(&f));
                d.splice(0..0, l.bytes());
            }
            let p = if prefixed { format!("{}/{}", i % 2, deep) } else { String::new() };
            target.push(TFile { rel: gr.path(&p, i), group: g, data: d });
        }
    }
    if target.is_empty() {
        let gr = &groups[0];
        let world = &mut worlds[gr.world];
        let f = world.fresh();
        let d = format!("{}\n{}\n", world.any_known(), world.novel(&f)).into_bytes();
        target.push(TFile { rel: gr.path("", 0), group: 0, data: d });
    }
    let mut noise = Vec::new();
    for n in ["pic.png", "style.conf", "data.sqlite", "page.html", "etc/secret.log", "conf/inv.yaml"] {
        if w.chance(1, 6) {
            noise.push((n.to_string(), b"not a log\n\x00\xff".to_vec()));
        }
    }
    let split = s.split && base.len() > 1 && w.chance(1, 4);
    Tree { groups, worlds, base, target, noise, split }
}

impl Tree {
    pub fn write(&self, ctx: &Ctx) {
        for (i, f) in self.base.iter().enumerate() {
            ctx.write(&format!("{}/{}", self.base_root(i), f.rel), &f.data);
        }
        for f in &self.target {
            ctx.write(&format!("target/{}", f.rel), &f.data);
        }
        for (n, d) in &self.noise {
            ctx.write(&format!("target/{}", n), d);
        }
    }
    fn base_root(&self, i: usize) -> &'static str {
        if self.split && i % 2 == 1 {
            "base2"
        } else {
            "base"
        }
    }
    /// The baselines, separated by a space.
    pub fn bases(&self) -> String {
        if self.split { "base base2" } else { "base" }.to_string()
    }
    pub fn base_urls(&self) -> String {
        if self.split { "http://logs.sim/logs/base/ http://logs.sim/logs/base2/" } else { "http://logs.sim/logs/base/" }.to_string()
    }
    /// Put the baselines and the target on a server.
    pub fn publish(&self, site: &mut crate::web::Site) {
        for (i, f) in self.base.iter().enumerate() {
            site.put(&format!("/logs/{}/{}", self.base_root(i), f.rel), &f.data);
        }
        for f in &self.target {
            site.put(&format!("/logs/target/{}", f.rel), &f.data);
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "{} groups ({} trained), {} baseline and {} target files, {} irrelevant",
            self.groups.len(),
            self.groups.iter().filter(|g| g.trained).count(),
            self.base.len(),
            self.target.len(),
            self.noise.len()
        )
    }
    pub fn matched(&self, g: usize) -> bool {
        self.groups[g].trained || self.groups.iter().filter(|g| g.trained).count() == 1
    }
}

/// What became of a target file.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    Full,
    /// a failure after this many bytes
    Cut(usize),
    Unopened,
}

/// A report as data, independent of the order of groups and files.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Canon {
    /// by source: anomalies, line count, byte count
    pub logs: BTreeMap<String, (Vec<Anom>, u64, u64)>,
    pub index_errors: Vec<String>,
    pub read_errors: Vec<String>,
    pub lines: u64,
    pub anomalies: u64,
    /// a log that is reported more than once, or without its index
    pub odd: Vec<String>,
}

pub fn put_report(out: &mut W, rep: &Report) {
    out.n(rep.log_reports.len() as u64);
    for l in &rep.log_reports {
        out.s(l.source.as_str());
        put_anoms(out, &l.anomalies);
        out.n(l.line_count as u64).n(l.byte_count as u64);
        out.n(rep.index_reports.contains_key(&l.index_name) as u64);
    }
    let ie: Vec<_> = rep.index_errors.iter().flatten().collect();
    out.n(ie.len() as u64);
    for s in ie {
        out.s(s.as_str());
    }
    out.n(rep.read_errors.len() as u64);
    for (s, _) in &rep.read_errors {
        out.s(s.as_str());
    }
    out.n(rep.total_line_count as u64).n(rep.total_anomaly_count as u64);
}
pub fn get_report(r: &mut R) -> Canon {
    get_ordered(r).0
}
/// A report, and the order in which it has its logs.
pub fn get_ordered(r: &mut R) -> (Canon, Vec<String>) {
    let mut c = Canon::default();
    let mut order = vec![];
    for _ in 0..r.n() {
        let p = r.s();
        let a = get_anoms(r);
        let v = (a, r.n(), r.n());
        if r.n() == 0 {
            c.odd.push(format!("{} has no index report", p));
        }
        if c.logs.insert(p.clone(), v).is_some() {
            c.odd.push(format!("{} is reported twice", p));
        }
        order.push(p);
    }
    c.index_errors = (0..r.n()).map(|_| r.s()).collect();
    c.read_errors = (0..r.n()).map(|_| r.s()).collect();
    order.extend(c.index_errors.iter().cloned());
    order.extend(c.read_errors.iter().cloned());
    c.index_errors.sort();
    c.read_errors.sort();
    c.lines = r.n();
    c.anomalies = r.n();
    (c, order)
}

/// The lines of a file that can be had before its failure.
pub fn readable(data: &[u8], json: bool, fate: &Fate) -> Vec<(Vec<u8>, usize, bool)> {
    let mut ps = match fate {
        Fate::Full => pieces(data, json),
        Fate::Cut(n) => {
            let mut p = pieces(&data[..(*n).min(data.len())], json);
            p.retain(|x| x.2);
            p
        }
        Fate::Unopened => vec![],
    };
    if let Some(i) = ps.iter().position(|p| std::str::from_utf8(&p.0).is_err()) {
        ps.truncate(i);
    }
    ps
}
/// A file that has a line which is not text fails there.
pub fn broken(data: &[u8], json: bool, fate: &Fate) -> bool {
    *fate != Fate::Full || pieces(data, json).iter().any(|p| std::str::from_utf8(&p.0).is_err())
}

/// The report over the files, in the order of the tree within a group unless one is given.
pub fn expect(t: &Tree, root: &str, fates: &[Fate], order: Option<&[usize]>) -> Canon {
    let mut c = Canon::default();
    let mut seen: Vec<HashSet<u64>> = vec![HashSet::new(); t.groups.len()];
    let n = t.target.len();
    for k in 0..n {
        let i = order.map(|o| o[k]).unwrap_or(k);
        let f = &t.target[i];
        let src = format!("{}{}", root, f.rel);
        if !t.matched(f.group) {
            c.index_errors.push(src);
            continue;
        }
        let g = &t.groups[f.group];
        if broken(&f.data, g.json, &fates[i]) {
            c.read_errors.push(src.clone());
        }
        let ps = readable(&f.data, g.json, &fates[i]);
        let a = expected(&ps, &t.worlds[g.world].cls, &mut seen[f.group]);
        c.lines += ps.len() as u64;
        if !a.is_empty() {
            c.anomalies += a.len() as u64;
            c.logs.insert(src, (a, ps.len() as u64, ps.iter().map(|p| p.0.len() as u64).sum()));
        }
    }
    c.index_errors.sort();
    c.read_errors.sort();
    c
}

fn cut(v: &[String]) -> String {
    let s = format!("{:?}", v);
    s.chars().take(600).collect()
}
/// The first difference between two reports.
pub fn same(got: &Canon, want: &Canon, what: &str) -> Verdict {
    ensure!(got.odd == want.odd, "malformed-report", "{}: {}", what, cut(&got.odd));
    ensure!(
        got.index_errors == want.index_errors,
        "baseline-errors",
        "{}: logs without baseline: got {}, expected {}",
        what,
        cut(&got.index_errors),
        cut(&want.index_errors)
    );
    ensure!(
        got.read_errors == want.read_errors,
        "read-errors",
        "{}: logs with read errors: got {}, expected {}",
        what,
        cut(&got.read_errors),
        cut(&want.read_errors)
    );
    for (p, (a, l, b)) in &want.logs {
        match got.logs.get(p) {
            None => return Err(Viol::new("log-lost", format!("{}: {} is not reported, expected {} anomalies, first {}", what, p, a.len(), show(a.first())))),
            Some((ga, gl, gb)) => {
                diff(ga, a, "log-anomalies", &format!("{}: {}", what, p))?;
                ensure!((gl, gb) == (l, b), "log-size", "{}: {}: {} lines {} bytes, expected {} and {}", what, p, gl, gb, l, b);
            }
        }
    }
    for p in got.logs.keys() {
        ensure!(want.logs.contains_key(p), "log-invented", "{}: {} is reported without reason: {}", what, p, show(got.logs[p].0.first()));
    }
    ensure!(got.lines == want.lines, "total-lines", "{}: total of {} lines, expected {}", what, got.lines, want.lines);
    ensure!(got.anomalies == want.anomalies, "total-anomalies", "{}: total of {} anomalies, expected {}", what, got.anomalies, want.anomalies);
    Ok(())
}

/// Train on one directory or url and report on the other; for use inside a simulated process.
pub fn analyse(base: &str, target: &str) -> Vec<u8> {
    let mut out = W::default();
    match try_analyse(base, target) {
        Ok(rep) => {
            out.n(1);
            put_report(&mut out, &rep);
        }
        Err(e) => {
            out.n(0).s(&format!("{:#}", e));
        }
    }
    out.0
}
pub fn content(s: &str) -> anyhow::Result<logreduce_model::Content> {
    logreduce_model::Content::from_input(logreduce_model::Input::from_string(s.into()))
}
pub fn try_analyse(base: &str, target: &str) -> anyhow::Result<Report> {
    let m = logreduce_model::Model::train(logreduce_model::OutputMode::Quiet, base.split(' ').map(content).collect::<anyhow::Result<Vec<_>>>()?, logreduce_model::hashing_index::new)?;
    m.report(logreduce_model::OutputMode::Quiet, content(target)?)
}
/// The report, or the error that came instead.
pub fn result(o: &Out) -> Result<Canon, String> {
    let mut r = R(&o.result);
    if r.n() == 1 {
        Ok(get_report(&mut r))
    } else {
        Err(r.s())
    }
}

//! C08: the programs, from their arguments to their exit status.
use crate::crawl::NET_FAULTS;
use crate::gen::*;
use crate::report::fates;
use crate::save::value;
use crate::tree::*;
use crate::web::Site;
use crate::wire::{R, W};
use logreduce_model::{Model, Report};
use simcore::*;
use std::collections::HashSet;
use std::path::Path;
use std::rc::Rc;

pub const C08: Property = Property {
    id: "C08",
    scenarios: &[
        (Scenario { name: "diff", run: c08_diff }, 3),
        (Scenario { name: "train", run: c08_train }, 2),
        (Scenario { name: "path", run: c08_path }, 1),
        (Scenario { name: "url", run: c08_url }, 1),
        (Scenario { name: "render", run: c08_render }, 1), (Scenario { name: "wrong", run: c08_wrong }, 1),
    ],
    quick_runs: 6_000,
    thorough_runs: 150_000,
    rule: "a run counts when at least one fault was injected into the program; distinct by command, files and faults",
    real: "the whole program: logreduce-cli (argument parsing, commands, exit status) and the render program of logreduce-report, with everything below them down to libc",
    stub: "the file system below the system call interface, sockets and the web server, standard output and error, futexes, clock and randomness",
    assumptions: &["a kill loses nothing that was already handed to the operating system", "standard output can be written"],
};

const OUT_FAULTS: &[u32] = &[WRITE_ENOSPC, WRITE_EIO, WRITE_SHORT, WRITE_EINTR, CRASH, CRASH_TORN, POWER_LOSS, DISK_FULL, OPEN_EACCES, OPEN_EIO, OPEN_EMFILE, RENAME_ERR, UNLINK_ERR, FSYNC_ERR, MKDIR_ERR];
pub const IN_FAULTS: &[u32] = &[READ_EIO, READ_SHORT, READ_EINTR, OPEN_EACCES, OPEN_EMFILE, OPEN_EIO, OPEN_ENOENT, DIR_ERR, CRASH];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prog {
    Logreduce,
    Render,
}
/// The exit status a shell would see; none for a killed process.
pub fn status(o: &Out) -> Result<Option<i32>, Viol> {
    match &o.end {
        End::Done => Ok(Some(R(&o.result).n() as i32)),
        End::Exit(c) => Ok(Some(*c)),
        End::Panic => Ok(Some(101)),
        End::Signal(s) => Ok(Some(128 + s)),
        End::Crash => Ok(None),
        End::Hang => Err(Viol::new("hang", "no end within the step bound")),
        End::Deadlock => Err(Viol::new("deadlock", "all threads wait for each other")),
        End::Harness(s) => Err(Viol::new("harness", s.clone())),
    }
}
pub fn program(ctx: &mut Ctx, name: &str, prog: Prog, args: &[String], mut cfg: PhaseCfg, net: Net) -> Out {
    cfg.args = vec!["logreduce".into()];
    cfg.args.extend(args.iter().cloned());
    ctx.note(format!("{} {}: {}", name, if prog == Prog::Render { "render" } else { "logreduce" }, args.join(" ")));
    ctx.phase(
        name,
        cfg,
        net,
        Box::new(move || {
            let c = match prog {
                Prog::Logreduce => clisim::sim_logreduce(),
                Prog::Render => clisim::sim_render_report(),
            };
            let mut w = W::default();
            w.n(c as u64);
            w.0
        }),
    )
}
pub fn calm() -> PhaseCfg {
    PhaseCfg { frozen: true, ..PhaseCfg::calm() }
}
pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
/// What a stored model or report is, for comparison.
fn stored(ctx: &mut Ctx, path: &str, model: bool) -> Result<String, String> {
    let p = path.to_string();
    let o = ctx.phase(
        "load",
        calm(),
        Net::default(),
        Box::new(move || {
            let r = if model { Model::load(Path::new(&p)).map(|m| value(&m)) } else { Report::load(Path::new(&p)).map(|m| value(&m)) };
            let mut w = W::default();
            match r {
                Ok(v) => w.n(1).s(&v),
                Err(e) => w.n(0).s(&format!("{:#}", e)),
            };
            w.0
        }),
    );
    if o.end != End::Done {
        return Err(o.describe_end());
    }
    let mut r = R(&o.result);
    if r.n() == 1 {
        Ok(r.s())
    } else {
        Err(r.s())
    }
}
fn canon(ctx: &mut Ctx, path: &str) -> Result<Canon, String> {
    let p = path.to_string();
    let o = ctx.phase(
        "load",
        calm(),
        Net::default(),
        Box::new(move || {
            let mut out = W::default();
            match Report::load(Path::new(&p)) {
                Ok(rep) => {
                    out.n(1);
                    put_report(&mut out, &rep);
                }
                Err(e) => {
                    out.n(0).s(&format!("{:#}", e));
                }
            }
            out.0
        }),
    );
    if o.end != End::Done {
        return Err(o.describe_end());
    }
    result(&o)
}
pub fn read(ctx: &Ctx, path: &str) -> Option<Vec<u8>> {
    std::fs::read(ctx.path(path)).ok()
}
fn plan(w: &mut Choices) -> FaultPlan {
    match w.below(5) {
        0 => FaultPlan::default(),
        1 => FaultPlan { rate: 8, single_at: None, max: 4 },
        _ => FaultPlan { rate: 0, single_at: Some(log_uniform(w, 40)), max: 1 },
    }
}

/// The page has to show every finding of the report.
fn shows(html: &str, said: &str, want: &Canon) -> Verdict {
    ensure!(html.trim_end().ends_with("</html>"), "incomplete-report", "the report ends with {:?}", html.chars().rev().take(60).collect::<String>().chars().rev().collect::<String>());
    for (src, (anoms, _, _)) in &want.logs {
        ensure!(html.contains(src.as_str()), "report-content", "the report does not show {}", src);
        for a in anoms {
            let l = format!(" {:4} | {}", a.pos, a.line);
            ensure!(html.contains(&l), "report-content", "the report does not show line {} of {}", a.pos, src);
            for c in a.before.iter().chain(&a.after) {
                ensure!(html.contains(c.as_str()), "report-content", "the report lacks context of line {} of {}", a.pos, src);
            }
        }
    }
    for src in want.read_errors.iter().chain(&want.index_errors) {
        let n = html.matches(src.as_str()).count() + said.matches(src.as_str()).count();
        let other = want.logs.contains_key(src) as usize;
        ensure!(n > other, "error-not-shown", "{} was not analysed completely, but neither the report nor the output says so", src);
    }
    Ok(())
}
/// The findings printed to the terminal.
fn live(t: &Tree, root: &str, fates: &[Fate], said: &str) -> Verdict {
    let mut want: Vec<(usize, String)> = Vec::new();
    for (i, f) in t.target.iter().enumerate() {
        let rel = format!("/{}", f.rel);
        let named = |s: &str| said.lines().any(|l| l.contains(s) && (l.contains(&format!("{}{}", root, f.rel)) || l.contains(&rel)));
        if !t.matched(f.group) {
            ensure!(named("No baselines"), "error-not-shown", "{} has no baseline, but the output does not say so", f.rel);
            continue;
        }
        let g = &t.groups[f.group];
        if broken(&f.data, g.json, &fates[i]) {
            ensure!(named("Could not read"), "error-not-shown", "{} could not be read, but the output does not say so", f.rel);
        }
        let ps = readable(&f.data, g.json, &fates[i]);
        want.extend(expected(&ps, &t.worlds[g.world].cls, &mut HashSet::new()).into_iter().map(|a| (a.pos, a.line)));
    }
    let mut got: Vec<(usize, String)> = Vec::new();
    for l in said.lines() {
        let Some((head, line)) = l.split_once(" | ") else { continue };
        let n: Vec<&str> = head.split(' ').collect();
        if let [d, pos] = n[..] {
            if let (Ok(_), Ok(p)) = (d.parse::<u32>(), pos.parse()) {
                got.push((p, line.to_string()));
            }
        }
    }
    got.sort();
    want.sort();
    for i in 0..got.len().max(want.len()) {
        ensure!(got.get(i) == want.get(i), "live-output", "finding {} of {} (expected {}): printed {:?}, expected {:?}", i, got.len(), want.len(), got.get(i), want.get(i));
    }
    Ok(())
}

struct Job {
    /// command and its arguments, after the options
    command: Vec<String>,
    model: bool,
    report: bool,
    raw: bool,
}
impl Job {
    fn args(&self, dir: &str) -> Vec<String> {
        let mut a = vec![];
        if self.model {
            a.extend(strs(&["--model", &format!("{}/model.bin", dir)]));
        }
        if self.report {
            a.extend(strs(&["--report", &format!("{}/report.html", dir)]));
        }
        a.extend(self.command.iter().cloned());
        a
    }
    fn cfg(&self, mut c: PhaseCfg) -> PhaseCfg {
        if self.raw {
            c.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
        }
        c
    }
}

/// Something happened that the program need not cope with: the compression library does not repeat interrupted calls.
pub fn excused(o: &Out) -> bool {
    !o.harmful().is_empty() || o.faults.iter().any(|f| f.kind == WRITE_EINTR || f.kind == READ_EINTR && f.what.starts_with("out/"))
}
fn named(o: &Out, src: &str) -> bool {
    o.out.contains(src) || o.err.contains(src)
}

/// Run a command without faults into ref/, and with faults into out/.
fn local(ctx: &mut Ctx, t: &Tree, job: &Job, old: bool) -> Verdict {
    ctx.write("ref/.keep", b"");
    ctx.write("out/.keep", b"");
    let target = job.command[0] != "train";
    let o = program(ctx, "reference", Prog::Logreduce, &job.args("ref"), job.cfg(calm()), Net::default());
    let st = status(&o)?;
    ensure!(st == Some(0), "failed", "without faults the status is {:?}: {} {}", st, o.err, o.panics);
    if job.report {
        let html = String::from_utf8_lossy(&read(ctx, "ref/report.html").unwrap_or_default()).into_owned();
        shows(&html, &o.out, &expect_any(t, &html))?;
    } else if target {
        live(t, "target/", &vec![Fate::Full; t.target.len()], &o.out)?;
    }
    if old {
        // an older model lies there
        ctx.write("old/some.log", b"an older baseline line\n");
        let o = program(ctx, "older", Prog::Logreduce, &strs(&["--model", "out/model.bin", "train", "old"]), calm(), Net::default());
        ensure!(status(&o)? == Some(0), "failed", "training without faults failed: {}", o.err);
    }
    if job.report && ctx.w.chance(1, 3) {
        // so does an older page, and it is longer
        let mut page = read(ctx, "ref/report.html").unwrap_or_default();
        page.extend_from_slice(b"\n<p>what follows the end</p>\n");
        ctx.write("out/report.html", &page);
        ctx.write("out/report.json", &page);
    }
    let w = &mut ctx.w;
    let p = plan(w);
    let mut cfg = job.cfg(PhaseCfg { frozen: true, rseed: Some(7), vary: w.chance(1, 2), ..PhaseCfg::default() });
    let where_ = w.below(4);
    cfg = cfg.fault(p);
    if where_ != 1 {
        cfg = cfg.scope("out/", OUT_FAULTS);
    }
    if where_ == 1 || where_ == 3 {
        cfg = cfg.scope("target", IN_FAULTS);
    }
    if where_ == 2 {
        cfg = cfg.scope("base", IN_FAULTS);
    }
    let o = program(ctx, "program", Prog::Logreduce, &job.args("out"), cfg, Net::default());
    let st = status(&o)?;
    ctx.nontrivial = !o.faults.is_empty();
    ctx.case = format!("{}; {}; {}", job.args("out").join(" "), t.describe(), o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    let base_hit = o.harmful().iter().any(|f| f.what.starts_with("base"));
    let dir_hit = o.harmful().iter().any(|f| f.kind == DIR_ERR);
    let target_hit = o.harmful().iter().any(|f| f.what.starts_with("target"));
    match st {
        Some(0) => {
            ensure!(!dir_hit, "unlisted", "a directory could not be listed, but the status is 0");
            if base_hit {
                for f in o.harmful() {
                    let p = f.what.split(' ').next().unwrap();
                    let rel = p.find('/').map(|i| &p[i..]).unwrap_or(p);
                    ensure!(named(&o, rel), "baseline-not-named", "the status is 0, but {} could not be read and the output does not say so", p);
                }
            }
            if job.model && !base_hit {
                let want = stored(ctx, "ref/model.bin", true).map_err(|e| Viol::new("harness", e))?;
                let got = stored(ctx, "out/model.bin", true).map_err(|e| Viol::new("model-incomplete", format!("the status is 0, but the model can't be loaded: {}", e)))?;
                ensure!(got.replace("out/", "ref/") == want, "model-differs", "the status is 0, but the model differs from the one of a run without faults");
            }
            if job.report {
                let Some(bytes) = read(ctx, "out/report.html") else {
                    return Err(Viol::new("report-missing", "the status is 0, but there is no report"));
                };
                let html = String::from_utf8_lossy(&bytes).into_owned();
                if !base_hit {
                    if !target_hit {
                        let want = read(ctx, "ref/report.html").unwrap();
                        ensure!(bytes == want, "report-differs", "the status is 0, but the report ({} bytes) differs from that of a run without faults ({} bytes)", bytes.len(), want.len());
                    }
                    let f = fates(t, "target/", &o);
                    shows(&html, &o.out, &expect_fates(t, &f, &html))?;
                    if job.raw {
                        let got = canon(ctx, "out/report.json").map_err(|e| Viol::new("raw-report", format!("the status is 0, but the raw report can't be loaded: {}", e)))?;
                        same(&got, &expect_fates(t, &f, &html), "raw report")?;
                    }
                }
                ensure!(html.trim_end().ends_with("</html>"), "incomplete-report", "the status is 0, but the report is cut");
            } else if target && !base_hit {
                live(t, "target/", &fates(t, "target/", &o), &o.out)?;
            }
        }
        Some(s) => {
            ensure!(excused(&o), "failed", "without harmful faults the status is {}: {} {}", s, o.err, o.panics);
            ensure!(!o.err.trim().is_empty() || !o.panics.is_empty(), "silent", "the status is {}, without any message", s);
        }
        None => {}
    }
    if job.model {
        // whatever was left behind serves a later run correctly, or not at all
        let a = strs(&["--model", "out/model.bin", "--report", "out/later.html", "path", "target"]);
        let o2 = program(ctx, "later", Prog::Logreduce, &a, calm(), Net::default());
        match status(&o2)? {
            Some(0) if !base_hit => {
                let html = String::from_utf8_lossy(&read(ctx, "out/later.html").unwrap_or_default()).into_owned();
                if old && st != Some(0) && html.contains("Directory(local: old)") {
                    return Ok(());
                }
                shows(&html, &o2.out, &expect_any(t, &html))?;
            }
            Some(0) => {}
            Some(s) => ensure!(st != Some(0), "model-unusable", "the model of a successful run can't be used: status {}, {}", s, o2.err),
            None => {}
        }
    }
    Ok(())
}
fn expect_any(t: &Tree, _html: &str) -> Canon {
    expect(t, "target/", &vec![Fate::Full; t.target.len()], None)
}
fn expect_fates(t: &Tree, f: &[Fate], _html: &str) -> Canon {
    expect(t, "target/", f, None)
}

fn diff(t: &Tree) -> Vec<String> {
    format!("diff {} target", t.bases()).split(' ').map(|s| s.to_string()).collect()
}
fn shape() -> Shape {
    Shape { groups: 3, files: 3, big: true, many: true, split: true, ..Default::default() }
}
fn c08_diff(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let t = tree(w, &shape());
    let report = w.chance(3, 4);
    let job = Job { command: diff(&t), model: w.chance(1, 2), report, raw: report && w.chance(1, 2) };
    t.write(ctx);
    local(ctx, &t, &job, false)
}
fn c08_train(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let t = tree(w, &shape());
    let job = Job { command: strs(&[&["train"], &t.bases().split(' ').collect::<Vec<_>>()[..]].concat()), model: true, report: false, raw: false };
    let old = w.chance(1, 2);
    t.write(ctx);
    local(ctx, &t, &job, old)
}
/// A single file and its rotated version, or a stored model that fails to load.
fn c08_path(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let mut t = tree(w, &Shape { groups: 1, files: 1, json: false, orphans: false, style: Some(2), ..Default::default() });
    t.noise.clear();
    t.target.truncate(1);
    t.target[0].rel = "file.log".into();
    let all: Vec<u8> = t.base.iter().flat_map(|f| f.data.clone()).collect();
    ctx.write("target/file.log", &t.target[0].data.clone());
    ctx.write("target/file.log.0", &all);
    let report = ctx.w.chance(1, 2);
    let model = ctx.w.chance(1, 2);
    ctx.write("out/.keep", b"");
    if model {
        let o = program(ctx, "train", Prog::Logreduce, &strs(&["--model", "out/model.bin", "train", "target/file.log.0"]), calm(), Net::default());
        ensure!(status(&o)? == Some(0), "failed", "training without faults failed: {}", o.err);
        if ctx.w.chance(1, 2) {
            // what a discovery would find is not what the model was made from
            ctx.write("target/file.log.0", &t.target[0].data.clone());
        }
    }
    let mut a = vec![];
    if model {
        a.extend(strs(&["--model", "out/model.bin"]));
    }
    if report {
        a.extend(strs(&["--report", "out/report.html"]));
    }
    if model || ctx.w.chance(1, 2) {
        a.extend(strs(&["path", "target/file.log"]));
    } else {
        a.extend(strs(&["diff", "target/file.log.0", "target/file.log"]));
    }
    let p = plan(&mut ctx.w);
    let mut kinds = IN_FAULTS.to_vec();
    kinds.extend(OUT_FAULTS);
    let cfg = PhaseCfg { frozen: true, ..PhaseCfg::default() }.fault(p).scope("out/", &kinds).scope("target/", IN_FAULTS);
    let o = program(ctx, "program", Prog::Logreduce, &a, cfg, Net::default());
    let st = status(&o)?;
    ctx.nontrivial = !o.faults.is_empty();
    ctx.case = format!("{}; {}", a.join(" "), o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    match st {
        Some(0) => {
            if o.harmful().iter().any(|f| f.what.starts_with("target/file.log.0 ")) {
                ensure!(named(&o, "file.log.0"), "baseline-not-named", "the status is 0, but the baseline could not be read and the output does not say so");
                return Ok(());
            }
            let f = fates(&t, "target/", &o);
            if report {
                let html = String::from_utf8_lossy(&read(ctx, "out/report.html").unwrap_or_default()).into_owned();
                shows(&html, &o.out, &expect(&t, "target/", &f, None))
            } else {
                live(&t, "target/", &f, &o.out)
            }
        }
        Some(s) => {
            ensure!(excused(&o), "failed", "without harmful faults the status is {}: {} {}", s, o.err, o.panics);
            ensure!(!o.err.trim().is_empty() || !o.panics.is_empty(), "silent", "the status is {}, without any message", s);
            Ok(())
        }
        None => Ok(()),
    }
}
/// Remote baselines and target.
fn c08_url(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let t = tree(w, &Shape { groups: 2, files: 3, big: false, many: true, split: true, ..Default::default() });
    let mut site = Site::default();
    t.publish(&mut site);
    let site = Rc::new(site);
    let root = "http://logs.sim/logs/target/";
    let report = w.chance(2, 3);
    let local_base = w.chance(1, 2);
    let mut a = vec![];
    if report {
        a.extend(strs(&["--report", "out/report.html"]));
    }
    a.push("diff".into());
    a.extend(if local_base { t.bases() } else { t.base_urls() }.split(' ').map(|s| s.to_string()));
    a.push(root.into());
    let p = plan(w);
    let cfg = PhaseCfg::default().fault(p).scope("out/", OUT_FAULTS).net_faults(NET_FAULTS);
    ctx.write("out/.keep", b"");
    t.write(ctx);
    let o = program(ctx, "program", Prog::Logreduce, &a, cfg, site.net("logs.sim"));
    let st = status(&o)?;
    ctx.nontrivial = !o.faults.is_empty();
    ctx.case = format!("{}; {}", a.join(" "), o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    let hit = !o.harmful().is_empty();
    match st {
        Some(0) if !hit => {
            let full = vec![Fate::Full; t.target.len()];
            if report {
                let html = String::from_utf8_lossy(&read(ctx, "out/report.html").unwrap_or_default()).into_owned();
                shows(&html, &o.out, &expect(&t, root, &full, None))
            } else {
                live(&t, root, &full, &o.out)
            }
        }
        Some(0) => {
            // the network may have been forgiving; every log is either shown in full or named
            let html = if report { String::from_utf8_lossy(&read(ctx, "out/report.html").unwrap_or_default()).into_owned() } else { String::new() };
            ensure!(!report || html.trim_end().ends_with("</html>"), "incomplete-report", "the status is 0, but the report is cut");
            if !local_base && o.out.contains("failed to load") {
                return Ok(());
            }
            let full = vec![Fate::Full; t.target.len()];
            let want = expect(&t, root, &full, None);
            for f in &t.target {
                let src = format!("{}{}", root, f.rel);
                let Some((anoms, _, _)) = want.logs.get(&src) else { continue };
                let text = if report { &html } else { &o.out };
                if anoms.iter().all(|a| text.contains(&format!("{} | {}", a.pos, a.line))) {
                    continue;
                }
                let rel = format!("{} ", f.rel);
                let told = o.out.lines().any(|l| l.contains("Could not read") && (l.contains(&src) || l.contains(&rel) || l.contains(&format!("{}:", f.rel)))) || html.matches(src.as_str()).count() > html.contains(&format!("href=\"{}\"", src)) as usize;
                ensure!(told, "error-not-shown", "{} is not shown completely, the status is 0 and the output does not name it", src);
            }
            Ok(())
        }
        Some(s) => {
            ensure!(excused(&o), "failed", "without harmful faults the status is {}: {} {}", s, o.err, o.panics);
            ensure!(!o.err.trim().is_empty() || !o.panics.is_empty(), "silent", "the status is {}, without any message", s);
            Ok(())
        }
        None => Ok(()),
    }
}
/// A request that can not be met.
fn c08_wrong(ctx: &mut Ctx) -> Verdict {
    let t = tree(&mut ctx.w, &Shape { groups: 2, files: 2, big: false, orphans: false, ..Default::default() });
    t.write(ctx);
    ctx.write("out/.keep", b"");
    ctx.write("target/alone.log", b"a log without an older one\n");
    ctx.write("target/two.log", b"a log with an older one\n");
    ctx.write("target/two.log.0", b"a log with an older one\n");
    ctx.write("old/some.log", b"an older baseline line\n");
    let o = program(ctx, "model", Prog::Logreduce, &strs(&["--model", "out/good.bin", "train", "old"]), calm(), Net::default());
    ensure!(status(&o)? == Some(0), "failed", "training without faults failed: {}", o.err);
    let good = read(ctx, "out/good.bin").unwrap_or_default();
    ctx.write("out/cut.bin", &good[..good.len() / 2]);
    ctx.write("out/empty.bin", b"");
    ctx.write("out/text.bin", b"this is not a model\n");
    let mut report = good.clone();
    let at = report.len() - 1 - ctx.w.below(8) as usize; // the checksum
    report[at] ^= 1 << ctx.w.below(8);
    ctx.write("out/bit.bin", &report);
    let gone = *ctx.w.pick(&["gone", "base/gone", "target/gone.log", "http://gone.sim/logs/", "http://logs.sim/gone/"]);
    let w = &mut ctx.w;
    let page = strs(&["--report", "out/report.html"]);
    let model = |n: &str| strs(&["--model", n]);
    let (a, made): (Vec<String>, bool) = match w.below(12) {
        0 => ([page, strs(&["diff", "base", gone, "target"])].concat(), false),
        1 => ([page, strs(&["diff", gone, "target"])].concat(), false),
        2 => ([page, strs(&["diff", "base", gone])].concat(), false),
        3 => ([model("out/new.bin"), strs(&["train", "base", gone])].concat(), false),
        4 => ([model("out/new.bin"), strs(&["train", gone])].concat(), false),
        5 | 6 => ([model(*w.pick(&["out/cut.bin", "out/empty.bin", "out/text.bin", "out/bit.bin"])), page, strs(&["path", *w.pick(&["target", "target/two.log"])])].concat(), false),
        7 => ([page, strs(&["path", "target/alone.log"])].concat(), false),
        8 => ([model("out/good.bin"), page, strs(&["diff", "base", "target"])].concat(), false),
        9 => (strs(&["train", "base"]), false),
        10 => ([page, strs(&["path", "gone.log"])].concat(), false),
        _ => ([model(*w.pick(&["out/new.bin", "gone/new.bin"])), strs(&["--report", "gone/report.html", "diff", "base", "target"])].concat(), true),
    };
    let net = Rc::new(Site::default()).net("logs.sim");
    let o = program(ctx, "program", Prog::Logreduce, &a, PhaseCfg { frozen: true, ..PhaseCfg::default() }, net);
    let st = status(&o)?;
    ctx.case = format!("{}; {}", a.join(" "), t.describe());
    ctx.nontrivial = true;
    ensure!(st.is_some_and(|s| s != 0), "not-refused", "the request can not be met, but the status is {:?}: {}", st, o.out);
    ensure!(!o.err.trim().is_empty(), "silent", "the status is {:?}, without any message", st);
    ensure!(o.panics.is_empty(), "panic", "instead of a message there is a panic: {}", o.panics);
    ensure!(read(ctx, "out/report.html").is_none(), "page-written", "the request can not be met, but a report was written");
    ensure!(made || read(ctx, "out/new.bin").is_none(), "model-written", "the request can not be met, but a model was written");
    ensure!(read(ctx, "out/good.bin").is_some_and(|x| x == good), "model-touched", "a request that can not be met changed an existing model");
    Ok(())
}
/// A raw report becomes a page.
fn c08_render(ctx: &mut Ctx) -> Verdict {
    let t = tree(&mut ctx.w, &shape());
    t.write(ctx);
    ctx.write("ref/.keep", b"");
    ctx.write("out/.keep", b"");
    let job = Job { command: diff(&t), model: false, report: true, raw: true };
    let o = program(ctx, "reference", Prog::Logreduce, &job.args("ref"), job.cfg(calm()), Net::default());
    ensure!(status(&o)? == Some(0), "failed", "without faults the status is not 0: {} {}", o.err, o.panics);
    let raw = read(ctx, "ref/report.json").ok_or_else(|| Viol::new("raw-report", "no raw report was written"))?;
    ctx.write("out/report.json", &raw);
    if ctx.w.chance(1, 3) {
        let mut page = read(ctx, "ref/report.html").unwrap_or_default();
        page.extend_from_slice(b"\n<p>what follows the end</p>\n");
        ctx.write("out/report.html", &page);
    }
    let p = plan(&mut ctx.w);
    let mut kinds = vec![READ_EIO, READ_SHORT, READ_EINTR, OPEN_ENOENT];
    kinds.extend(OUT_FAULTS);
    let cfg = PhaseCfg { frozen: true, rseed: Some(7), ..PhaseCfg::default() }.fault(p).scope("out/", &kinds);
    let o = program(ctx, "render", Prog::Render, &strs(&["out/report.json"]), cfg, Net::default());
    ctx.nontrivial = !o.faults.is_empty();
    ctx.case = format!("render; {}; {}", t.describe(), o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    match status(&o)? {
        Some(0) => {
            let html = String::from_utf8_lossy(&read(ctx, "out/report.html").unwrap_or_default()).into_owned();
            shows(&html, &o.out, &expect_any(&t, &html))?;
            ensure!(read(ctx, "out/report.html") == read(ctx, "ref/report.html"), "render-differs", "the page made of the raw report differs from the one written with it");
            Ok(())
        }
        Some(s) => {
            ensure!(excused(&o), "failed", "without harmful faults the status is {}: {} {}", s, o.err, o.panics);
            Ok(())
        }
        None => Ok(()),
    }
}

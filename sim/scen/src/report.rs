//! C05 and C06: what a report over a tree of logs has to say.
use crate::cli::{program, read, status, strs, Prog};
use crate::lines::ended;
use crate::proc::threads;
use crate::tree::*;
use crate::web::Site;
use crate::wire::R;
use simcore::*;
use std::rc::Rc;

pub const C05: Property = Property {
    id: "C05",
    scenarios: &[(Scenario { name: "faults", run: c05_faults }, 3), (Scenario { name: "shared", run: c05_shared }, 1), (Scenario { name: "directories", run: c05_directories }, 1)],
    quick_runs: 10_000,
    thorough_runs: 150_000,
    rule: "a run counts when the target has at least two relevant files and one of them fails or has an anomaly; distinct by tree, faults and schedule",
    real: "logreduce-model (training, report, file discovery), walkdir, logreduce-index, logreduce-tokenizer, logreduce-iterator, sprs and rayon",
    stub: "the file system below the system call interface (open and read errors, short and interrupted reads, directory order), futexes, clock and randomness",
    assumptions: &["lines are built so that their distance is clearly below or above the threshold", "baselines can be opened"],
};

pub const C06: Property = Property {
    id: "C06",
    scenarios: &[(Scenario { name: "program", run: c06_program }, 1), (Scenario { name: "local", run: c06_local }, 2), (Scenario { name: "remote", run: c06_remote }, 1)],
    quick_runs: 4_500,
    thorough_runs: 150_000,
    rule: "a run counts when at least two files of a group have a new line in common or the target has at least three files; distinct by tree, environment variation and schedule",
    real: "logreduce-model (training, report, file and url discovery), httpdir and threadpool, reqwest, hyper and tokio, logreduce-cache, walkdir, logreduce-index, logreduce-tokenizer, logreduce-iterator, sprs and rayon",
    stub: "the file system below the system call interface, sockets and the web server, futexes, clock and randomness",
    assumptions: &["baselines and target do not change between the runs", "timestamps and durations are not findings"],
};

const OPEN: &[u32] = &[OPEN_EACCES, OPEN_EMFILE, OPEN_EIO, OPEN_ENOENT];

/// What the injected faults mean for every target file.
pub fn fates(t: &Tree, root: &str, o: &Out) -> Vec<Fate> {
    t.target
        .iter()
        .map(|f| {
            let name = format!("{}{} ", root, f.rel);
            match o.harmful().iter().find(|x| x.what.starts_with(&name)) {
                None => Fate::Full,
                Some(x) if OPEN.contains(&x.kind) => Fate::Unopened,
                Some(x) => Fate::Cut(x.offset()),
            }
        })
        .collect()
}

fn plan(w: &mut Choices) -> FaultPlan {
    match w.below(5) {
        0 => FaultPlan::default(),
        1 => FaultPlan { rate: 3, single_at: None, max: 8 },
        2 => FaultPlan { rate: 12, single_at: None, max: 3 },
        3 if w.chance(1, 3) => FaultPlan { rate: 2, single_at: None, max: 60 },
        _ => FaultPlan { rate: 0, single_at: Some(w.below(30)), max: 1 },
    }
}

fn c05_faults(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let mut t = tree(w, &Shape { many: true, split: true, dots: true, ..Default::default() });
    // content that is not text
    if w.chance(1, 6) {
        let i = w.below(t.target.len() as u64) as usize;
        let at = w.below(t.target[i].data.len() as u64 + 1) as usize;
        t.target[i].data.splice(at..at, *b"\xff\xfe");
    }
    run(ctx, t, |t, root, fates| vec![expect(t, root, fates, None)])
}

/// New lines that occur in several files of a group are shown once, in the first of them, whatever fails.
fn c05_shared(ctx: &mut Ctx) -> Verdict {
    let t = tree(&mut ctx.w, &Shape { shared: true, orphans: false, groups: 2, files: 4, json: false, ..Default::default() });
    run(ctx, t, |t, root, fates| orders(t).iter().map(|o| expect(t, root, fates, Some(o))).collect())
}
/// A directory that can not be listed hides files: that is never passed over in silence.
fn c05_directories(ctx: &mut Ctx) -> Verdict {
    let t = tree(&mut ctx.w, &Shape { json: false, big: false, many: true, ..Default::default() });
    t.write(ctx);
    let w = &mut ctx.w;
    let p = match w.below(3) {
        0 => FaultPlan { rate: 4, single_at: None, max: 3 },
        _ => FaultPlan { rate: 0, single_at: Some(w.below(12)), max: 1 },
    };
    let scope = *w.pick(&["target", "target", "base"]);
    let cfg = threads(w, PhaseCfg::default().fault(p).scope(scope, &[DIR_ERR]));
    let o = ctx.phase("train and report", cfg, Net::default(), Box::new(|| analyse("base", "target")));
    ended(&o)?;
    let hidden: Vec<&str> = o.faults.iter().filter(|f| f.kind == DIR_ERR).map(|f| f.what.split(' ').next().unwrap()).collect();
    ctx.nontrivial = !hidden.is_empty();
    ctx.case = format!("{}; {:?} can not be listed", t.describe(), hidden);
    match result(&o) {
        Err(e) => ensure!(!hidden.is_empty(), "no-report", "an analysis without faults failed: {}", e),
        Ok(got) => {
            let full = expect(&t, "target/", &vec![Fate::Full; t.target.len()], None);
            if hidden.is_empty() {
                return same(&got, &full, "report");
            }
            // an incomplete report has to name the directory
            let named = hidden.iter().all(|d| got.read_errors.iter().any(|e| e.trim_end_matches('/') == d.trim_end_matches('/')));
            ensure!(named || same(&got, &full, "").is_ok(), "incomplete", "a report was made as if it was complete, although {:?} could not be listed", hidden);
        }
    }
    Ok(())
}
/// An environment that differs in everything a report must not depend on.
fn vary(w: &mut Choices) -> PhaseCfg {
    let mut c = threads(w, PhaseCfg::default());
    c.wall_base = *w.pick(&[1_700_000_000i64, 1_000_000_000, 1_700_003_601, 4_000_000_000, 86_399]);
    c.pid = 2 + w.below(30_000) as i32;
    c.spurious = w.chance(1, 5);
    c
}
fn repeat(ctx: &mut Ctx, base: &str, target: &'static str, mut net: impl FnMut(u64) -> Net) -> Verdict {
    let mut first: Option<(Canon, Vec<String>)> = None;
    let n = 2 + ctx.w.below(2);
    for k in 0..n {
        let mut cfg = if k == 0 { PhaseCfg::calm() } else { vary(&mut ctx.w) };
        cfg.env.push(("XDG_CACHE_HOME".into(), format!("@SCRATCH@/cache{}", k)));
        let jump = ctx.w.chance(1, 3);
        let base = base.to_string();
        let o = ctx.phase(
            "train and report",
            cfg,
            net(k),
            Box::new(move || {
                if jump {
                    clock_jump(-7200);
                }
                analyse(&base, target)
            }),
        );
        ended(&o)?;
        result(&o).map_err(|e| Viol::new("no-report", format!("run {} failed: {}", k, e)))?;
        let mut r = R(&o.result);
        r.n();
        let (got, order) = get_ordered(&mut r);
        match &first {
            None => first = Some((got, order)),
            Some(f) => {
                same(&got, &f.0, &format!("run {} compared with the first", k))?;
                ensure!(order == f.1, "order", "run {} has the logs in the order {:?}, the first had {:?}", k, order, f.1);
            }
        }
    }
    Ok(())
}
fn c06_shape(w: &mut Choices) -> Tree {
    let shared = w.chance(3, 4);
    tree(w, &Shape { shared, groups: 5, files: 5, many: true, split: true, ..Default::default() })
}
fn c06_local(ctx: &mut Ctx) -> Verdict {
    let t = c06_shape(&mut ctx.w);
    t.write(ctx);
    ctx.case = t.describe();
    ctx.nontrivial = t.target.len() > 2;
    repeat(ctx, &t.bases(), "target", |_| Net::default())
}
/// The same over HTTP, the pages listing their entries in varying order.
fn c06_remote(ctx: &mut Ctx) -> Verdict {
    let t = c06_shape(&mut ctx.w);
    ctx.case = t.describe();
    ctx.nontrivial = t.target.len() > 2;
    let mut site = Site::default();
    t.publish(&mut site);
    for (n, d) in &t.noise {
        site.put(&format!("/logs/target/{}", n), d);
    }
    let site = Rc::new(site);
    repeat(ctx, &t.base_urls(), "http://logs.sim/logs/target/", |_| site.net("logs.sim"))
}

/// The program prints the same and writes the same page.
fn c06_program(ctx: &mut Ctx) -> Verdict {
    let t = c06_shape(&mut ctx.w);
    t.write(ctx);
    ctx.nontrivial = t.target.len() > 2;
    let page = ctx.w.chance(2, 3);
    ctx.case = format!("program; page {}; {}", page, t.describe());
    ctx.write("out/.keep", b"");
    let mut a = if page { strs(&["--report", "out/report.html"]) } else { vec![] };
    a.push("diff".into());
    a.extend(t.bases().split(' ').map(|s| s.to_string()));
    a.push("target".into());
    let mut first: Option<(String, Option<Vec<u8>>)> = None;
    for k in 0..2 + ctx.w.below(2) {
        let cfg = if k == 0 { PhaseCfg::calm() } else { PhaseCfg { wall_base: PhaseCfg::calm().wall_base, ..vary(&mut ctx.w) } };
        let o = program(ctx, "program", Prog::Logreduce, &a, PhaseCfg { frozen: true, ..cfg }, Net::default());
        let st = status(&o)?;
        ensure!(st == Some(0), "failed", "run {} ended with {:?}: {} {}", k, st, o.err, o.panics);
        let got = (o.out.clone(), if page { read(ctx, "out/report.html") } else { None });
        match &first {
            None => first = Some(got),
            Some(f) => {
                let at = got.0.lines().zip(f.0.lines()).find(|x| x.0 != x.1);
                ensure!(got.0 == f.0, "output", "run {} prints something else than the first: {:?}", k, at);
                ensure!(got.1 == f.1, "page", "run {} writes another page than the first", k);
            }
        }
    }
    Ok(())
}

/// All orders of the files within their groups.
pub fn orders(t: &Tree) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for g in 0..t.groups.len() {
        let files: Vec<usize> = (0..t.target.len()).filter(|i| t.target[*i].group == g).collect();
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for f in files {
            perms = perms
                .iter()
                .flat_map(|p| {
                    (0..=p.len()).map(move |i| {
                        let mut p = p.clone();
                        p.insert(i, f);
                        p
                    })
                })
                .collect();
        }
        out = out.iter().flat_map(|o| perms.iter().map(move |p| [o.clone(), p.clone()].concat())).collect();
    }
    out
}

fn run(ctx: &mut Ctx, t: Tree, want: impl Fn(&Tree, &str, &[Fate]) -> Vec<Canon>) -> Verdict {
    t.write(ctx);
    let w = &mut ctx.w;
    let p = plan(w);
    let mut kinds = vec![READ_EIO, READ_SHORT, READ_EINTR];
    if w.chance(1, 2) {
        kinds.extend(OPEN);
    }
    let cfg = threads(w, PhaseCfg::default().fault(p).scope("target/", &kinds));
    let bases = t.bases();
    let (target, root) = *ctx.w.pick(&[("target", "target/"), ("target", "target/"), ("target/", "target/"), ("./target", "./target/"), ("base/../target/", "base/../target/")]);
    let o = ctx.phase("train and report", cfg, Net::default(), Box::new(move || analyse(&bases, target)));
    ended(&o)?;
    let f = fates(&t, "target/", &o);
    let wants = want(&t, root, &f);
    ctx.case = format!("{}; {}", t.describe(), o.harmful().iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    ctx.nontrivial = t.target.len() > 1 && (wants[0].anomalies > 0 || !wants[0].read_errors.is_empty());
    match result(&o) {
        Err(e) => Err(Viol::new("no-report", format!("a failing target file prevented the report: {}", e))),
        Ok(got) => {
            if wants.iter().any(|x| *x == got) {
                return Ok(());
            }
            same(&got, &wants[0], "report")?;
            unreachable!()
        }
    }
}

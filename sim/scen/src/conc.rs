//! C20: several analyses at the same time in one process.
use crate::gen::World;
use crate::lines::ended;
use crate::proc::threads;
use crate::robust::token;
use crate::tree::*;
use crate::web::Site;
use crate::wire::{R, W};
use logreduce_model::{hashing_index, Model, OutputMode};
use simcore::*;
use std::rc::Rc;
use std::sync::Arc;

pub const C20: Property = Property {
    id: "C20",
    scenarios: &[(Scenario { name: "analyses", run: c20_analyses }, 3), (Scenario { name: "model", run: c20_model }, 2), (Scenario { name: "calls", run: c20_calls }, 5)],
    quick_runs: 3_600,
    thorough_runs: 120_000,
    rule: "a run counts when at least two analyses ran at the same time and one of them has an anomaly; distinct by content, faults and schedule",
    real: "logreduce-model, logreduce-index, logreduce-tokenizer, logreduce-iterator, logreduce-cache, httpdir, reqwest, hyper and tokio, walkdir, sprs and rayon, with several calling threads",
    stub: "the file system below the system call interface, sockets and the web servers, futexes, clock and randomness",
    assumptions: &["preemption inside a library call is at the edges of the code under test and at intercepted calls of the libraries below it"],
};

type Task = Arc<dyn Fn() -> Vec<u8> + Send + Sync>;

/// All of them at once; the last one in the calling thread.
fn together(tasks: Vec<Task>) -> Vec<u8> {
    let mut tasks = tasks;
    let mine = tasks.pop();
    let hs: Vec<_> = tasks.into_iter().map(|t| std::thread::spawn(move || t())).collect();
    let last = mine.map(|t| t());
    let mut out = W::default();
    for h in hs {
        match h.join() {
            Ok(r) => out.b(&r),
            Err(_) => out.b(b""),
        };
    }
    if let Some(r) = last {
        out.b(&r);
    }
    out.0
}
fn parse(b: &[u8]) -> Result<Canon, String> {
    if b.is_empty() {
        return Err("the thread panicked".into());
    }
    let mut r = R(b);
    if r.n() == 1 {
        Ok(get_report(&mut r))
    } else {
        Err(r.s())
    }
}
fn compare(got: &Result<Canon, String>, want: &Result<Canon, String>, what: &str) -> Verdict {
    match (got, want) {
        (Ok(g), Ok(w)) => same(g, w, what),
        (Err(e), Ok(_)) => Err(Viol::new("failed", format!("{} failed: {}", what, e))),
        (Ok(_), Err(e)) => Err(Viol::new("invented", format!("{} gave a report, but alone it fails: {}", what, e))),
        (Err(_), Err(_)) => Ok(()),
    }
}
fn site(trees: &[Rc<Site>]) -> Net {
    let s: Vec<Rc<Site>> = trees.to_vec();
    let hosts: Vec<String> = (0..s.len()).map(|i| format!("s{}.sim", i)).collect();
    let names: Vec<&str> = hosts.iter().map(|h| h.as_str()).collect();
    let h2 = hosts.clone();
    Net::new(&names, Box::new(move |q| s[h2.iter().position(|h| *h == q.host).unwrap()].answer(q)))
}
/// Put trees on the disk and on servers.
fn trees(ctx: &mut Ctx, n: u64) -> Vec<Rc<Site>> {
    let mut sites = vec![];
    let mut text = vec![];
    for i in 0..n {
        let w = &mut ctx.w;
        let big = w.chance(1, 4);
        let t = tree(w, &Shape { groups: 3, files: 3, big, ..Default::default() });
        for f in &t.base {
            ctx.write(&format!("t{}/base/{}", i, f.rel), &f.data);
        }
        for f in &t.target {
            ctx.write(&format!("t{}/target/{}", i, f.rel), &f.data);
        }
        let mut s = Site::default();
        t.publish(&mut s);
        sites.push(Rc::new(s));
        text.push(t.describe());
    }
    ctx.case = text.join("; ");
    sites
}
const READ: &[u32] = &[OPEN_EACCES, OPEN_EIO, OPEN_ENOENT, READ_EIO];

fn c20_analyses(ctx: &mut Ctx) -> Verdict {
    let n = 1 + ctx.w.below(3);
    let sites = trees(ctx, n);
    let w = &mut ctx.w;
    let k = 2 + w.below(2);
    let cached = w.chance(1, 2);
    // one of the trees may be hard to read
    let bad = w.chance(1, 3).then(|| w.below(n));
    let mut what = vec![];
    let tasks: Vec<(Task, Option<u64>)> = (0..k)
        .map(|_| {
            let i = w.below(n);
            let remote = w.chance(1, 2);
            let (b, t) = if remote { (format!("http://s{}.sim/logs/base/", i), format!("http://s{}.sim/logs/target/", i)) } else { (format!("t{}/base", i), format!("t{}/target", i)) };
            what.push(format!("{} against {}", t, b));
            let f: Task = Arc::new(move || analyse(&b, &t));
            (f, (!remote).then_some(i))
        })
        .collect();
    ctx.case = format!("{}: {}", ctx.case, what.join(", "));
    let env = |mut c: PhaseCfg, dir: String| {
        c.env.push(("XDG_CACHE_HOME".into(), format!("@SCRATCH@/{}", dir)));
        if cached {
            c.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
        }
        c
    };
    let mut wants = vec![];
    for (i, (t, _)) in tasks.iter().enumerate() {
        let t = t.clone();
        let o = ctx.phase(&format!("alone: {}", what[i]), env(PhaseCfg::calm(), format!("cache{}", i)), site(&sites), Box::new(move || t()));
        ended(&o)?;
        wants.push(parse(&o.result));
    }
    let rounds = 1 + ctx.w.below(2);
    for r in 0..rounds {
        let mut cfg = threads(&mut ctx.w, env(PhaseCfg::default(), "cache".into()));
        if let Some(b) = bad {
            let p = fault_plan(&mut ctx.w);
            cfg = cfg.fault(p).scope(&format!("t{}/", b), READ);
        }
        let ts: Vec<Task> = tasks.iter().map(|t| t.0.clone()).collect();
        let o = ctx.phase("all at once", cfg, site(&sites), Box::new(move || together(ts)));
        ended(&o)?;
        let mut p = R(&o.result);
        for (i, (_, tree)) in tasks.iter().enumerate() {
            let got = parse(p.b());
            if tree.is_some() && *tree == bad {
                continue;
            }
            compare(&got, &wants[i], &format!("{} (round {}, beside {} others)", what[i], r, k - 1))?;
        }
    }
    ctx.nontrivial = wants.iter().any(|w| w.as_ref().is_ok_and(|c| c.anomalies > 0));
    Ok(())
}

/// Short calls into the libraries, close together.
fn c20_calls(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let mut world = World::new(w.bulk(), 4);
    let mut r = w.bulk();
    let lines: Vec<String> = (0..2 + w.below(4))
        .map(|_| match r.below(3) {
            0 => {
                let f = world.fresh();
                world.novel(&f)
            }
            1 => world.any_known(),
            _ => String::from_utf8_lossy(&(0..1 + r.below(5)).flat_map(|_| [token(&mut r), b" ".to_vec()].concat()).filter(|b| *b != b'\n').collect::<Vec<u8>>()).into_owned(),
        })
        .collect();
    let base: Vec<String> = (0..world.base.len()).map(|i| world.known(i)).collect();
    let k = 2 + ctx.w.below(3);
    let mut kinds = vec![];
    let tasks: Vec<Task> = (0..k)
        .map(|_| {
            let w = &mut ctx.w;
            let kind = w.below(5);
            let n = 3 + w.below(30);
            let mut own = w.bulk();
            // mostly the line of the last call again
            let mut at = 0;
            let todo: Vec<String> = (0..n)
                .map(|_| {
                    if own.chance(1, 2) {
                        at = own.below(lines.len() as u64) as usize;
                    }
                    lines[at].clone()
                })
                .collect();
            let base = base.clone();
            kinds.push(kind);
            let f: Task = Arc::new(move || {
                let mut out = W::default();
                match kind {
                    0 | 1 => todo.iter().for_each(|l| {
                        out.s(&logreduce_tokenizer::process(l));
                    }),
                    2 => {
                        // with a small part of the lines each
                        let mut i = hashing_index::new();
                        logreduce_model::process::ChunkTrainer::single(&mut i, false, base[0].as_bytes()).unwrap();
                        for l in &todo {
                            let mut skip = Default::default();
                            for a in logreduce_model::process::ChunkProcessor::new(l.as_bytes(), &i, false, &mut skip).flatten() {
                                out.s(&a.anomaly.line).n(a.anomaly.distance.to_bits() as u64);
                            }
                        }
                    }
                    3 => {
                        for l in logreduce_iterator::BytesLines::new(todo.join("\n").as_bytes(), n % 2 == 0).flatten() {
                            out.b(&l.0).n(l.1 as u64);
                        }
                        for l in &todo {
                            out.s(&logreduce_model::IndexName::from_path(l).0);
                        }
                    }
                    _ => {
                        let mut i = hashing_index::new();
                        logreduce_model::process::ChunkTrainer::single(&mut i, false, base.join("\n").as_bytes()).unwrap();
                        let mut skip = Default::default();
                        for a in logreduce_model::process::ChunkProcessor::new(todo.join("\n").as_bytes(), &i, false, &mut skip).flatten() {
                            out.s(&a.anomaly.line).n(a.anomaly.pos as u64).n(a.anomaly.distance.to_bits() as u64);
                        }
                    }
                }
                out.0
            });
            f
        })
        .collect();
    ctx.case = format!("{} threads call {:?}, lines {:?}", k, kinds, lines);
    ctx.nontrivial = lines.len() > 2;
    let mut cfg = threads(&mut ctx.w, PhaseCfg::default());
    cfg.preempt_gap = Some(*ctx.w.pick(&[7, 30, 150, 1000]));
    let ts = tasks.clone();
    let one = ctx.phase(
        "one after the other",
        PhaseCfg::calm(),
        Net::default(),
        Box::new(move || {
            let mut out = W::default();
            for t in ts {
                out.b(&t());
            }
            out.0
        }),
    );
    ended(&one)?;
    let o = ctx.phase("all at once", cfg, Net::default(), Box::new(move || together(tasks)));
    ended(&o)?;
    let (mut p, mut q) = (R(&o.result), R(&one.result));
    for (i, kind) in kinds.iter().enumerate() {
        let name = ["normalisation", "normalisation", "search", "splitting", "training and inspection"][*kind as usize];
        ensure!(p.b() == q.b(), "differs", "{} in thread {} has another result than alone", name, i);
    }
    Ok(())
}

/// One model, used by several threads.
fn c20_model(ctx: &mut Ctx) -> Verdict {
    let n = 1 + ctx.w.below(2);
    let sites = trees(ctx, n);
    let w = &mut ctx.w;
    let k = 2 + w.below(2);
    let targets: Vec<String> = (0..k)
        .map(|_| {
            let i = w.below(n);
            match w.below(4) {
                0 => format!("http://s{}.sim/logs/target/", i),
                1 => format!("t{}/base", i),
                _ => format!("t{}/target", i),
            }
        })
        .collect();
    ctx.case = format!("{}: {}", ctx.case, targets.join(", "));
    let bad = w.chance(1, 3).then(|| w.below(k) as usize).filter(|b| targets[*b] != "t0/base");
    let train = || Model::train(OutputMode::Quiet, vec![content("t0/base").unwrap()], hashing_index::new).map(Arc::new);
    let report = |m: &Model, t: &str| {
        let mut out = W::default();
        match content(t).and_then(|c| m.report(OutputMode::Quiet, c)) {
            Ok(r) => {
                out.n(1);
                put_report(&mut out, &r);
            }
            Err(e) => {
                out.n(0).s(&format!("{:#}", e));
            }
        }
        out.0
    };
    let mut wants = vec![];
    for t in &targets {
        let t = t.clone();
        let o = ctx.phase(&format!("alone: {}", t), PhaseCfg::calm(), site(&sites), Box::new(move || report(&train().unwrap(), &t)));
        ended(&o)?;
        wants.push(parse(&o.result));
    }
    let mut cfg = threads(&mut ctx.w, PhaseCfg::default());
    if let Some(b) = bad {
        let p = fault_plan(&mut ctx.w);
        cfg = cfg.fault(p).scope(&format!("{}/", targets[b]), READ);
    }
    let ts = targets.clone();
    let o = ctx.phase(
        "all at once",
        cfg,
        site(&sites),
        Box::new(move || {
            let m = match train() {
                Ok(m) => m,
                Err(_) => return vec![],
            };
            together(
                ts.into_iter()
                    .map(|t| {
                        let m = m.clone();
                        let f: Task = Arc::new(move || report(&m, &t));
                        f
                    })
                    .collect(),
            )
        }),
    );
    ended(&o)?;
    let hurt = |t: &str| bad.is_some_and(|b| targets[b] == t);
    ensure!(!o.result.is_empty(), "training-failed", "the training failed");
    let mut p = R(&o.result);
    for (i, t) in targets.iter().enumerate() {
        let got = parse(p.b());
        if !hurt(t) {
            compare(&got, &wants[i], &format!("{} (one of {} with the same model)", t, k))?;
        }
    }
    ctx.nontrivial = wants.iter().any(|w| w.as_ref().is_ok_and(|c| c.anomalies > 0));
    Ok(())
}

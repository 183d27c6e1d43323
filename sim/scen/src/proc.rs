//! C03 and C04: inspection and training of log lines.
use crate::gen::*;
use crate::lines::{ended, pieces, SimReader};
use crate::robust::{gz, soup};
use crate::web::Site;
use crate::wire::{R, W};
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use simcore::*;
use std::collections::HashSet;

pub const C03: Property = Property {
    id: "C03",
    scenarios: &[(Scenario { name: "inspect", run: c03 }, 1)],
    quick_runs: 7_000,
    thorough_runs: 150_000,
    rule: "a run counts when the inspected log has at least one new line and at least two lines; distinct by log content, read segmentation and schedule",
    real: "logreduce-model process module (ChunkTrainer, ChunkProcessor), logreduce-index, logreduce-tokenizer, logreduce-iterator, sprs and rayon with real threads under the simulated scheduler",
    stub: "the underlying reader (in-memory stream with simulated segmentation and interruptions), futexes, clock and randomness",
    assumptions: &["lines are built so that their distance to the baseline is known to be below or above the 0.3 threshold"],
};
pub const C04: Property = Property {
    id: "C04",
    scenarios: &[(Scenario { name: "train", run: c04_train }, 30), (Scenario { name: "files", run: c04_files }, 20), (Scenario { name: "copy", run: c04_copy }, 30), (Scenario { name: "large", run: c04_large }, 1)],
    quick_runs: 4_000,
    thorough_runs: 80_000,
    rule: "a run counts when the baseline has at least two distinct lines and all its consumed lines were inspected afterwards; distinct by content, segmentation, faults and schedule",
    real: "logreduce-model training and inspection, logreduce-index, logreduce-tokenizer, logreduce-iterator, sprs and rayon; walkdir and std::fs in the file scenario",
    stub: "readers or the file system below the system call interface (segmentation, interruptions, read errors), futexes, clock and randomness",
    assumptions: &["a failing baseline source has delivered some prefix; only its complete lines count as consumed"],
};

/// Some log content: pieces, joined by line feeds or literal backslash-n.
pub fn log(w: &mut Choices, world: &mut World, json: bool) -> Vec<u8> {
    let big = w.weighted(&[10, 6, 3, 1]);
    let n = match big {
        0 => 1 + w.below(12),
        1 => 1 + w.below(80),
        2 => 480 + w.below(700),
        _ => 5050 + w.below(400),
    } as usize;
    let fresh: Vec<_> = (0..1 + w.below(8)).map(|_| world.fresh()).collect();
    let novelty = *w.pick(&[3u64, 10, 40, 200]);
    // where chunk boundaries are likely, new lines are more frequent
    let near = |i: usize| big >= 2 && (i % 512 < 6 || i % 512 > 506 || (5110..5135).contains(&i) || i + 6 > n);
    let unique = w.chance(if big == 2 { 9 } else { 1 }, 10);
    let dup = *w.pick(&[0u64, 0, 1, 5]);
    let mut r = w.bulk();
    let mut out = Vec::new();
    for i in 0..n {
        let hot = near(i) && r.chance(1, 3);
        let line = if hot || r.chance(1, novelty) {
            if r.chance(1, 2) {
                let f = fresh[r.below(fresh.len() as u64) as usize].clone();
                world.novel(&f)
            } else {
                let f = world.fresh();
                world.novel(&f)
            }
        } else if unique && !(r.chance(dup, 10)) {
            world.filler()
        } else {
            world.any_known()
        };
        out.extend_from_slice(line.as_bytes());
        if json && r.chance(1, 5) {
            out.extend_from_slice(*r.pick(&[b",".as_slice(), b"[", b"}"]));
        } else if r.chance(1, 12) {
            out.extend_from_slice(b"\\n");
        } else {
            out.push(b'\n');
        }
        if r.chance(1, 60) {
            out.push(b'\n');
        }
        if big < 3 && r.chance(1, 500) {
            // an over-long piece, left out but counted
            out.extend(std::iter::repeat_n(b'x', 6001 + r.below(9000) as usize));
            out.push(b'\n');
        }
    }
    if w.chance(1, 4) && out.last() == Some(&b'\n') {
        out.pop();
    }
    out
}

/// Runs of duplicates, of distinct known lines and of new lines, with lengths around those of the internal buffers.
pub fn floods(w: &mut Choices, world: &mut World) -> Vec<u8> {
    let mut out = Vec::new();
    let mut left = 21_000u64;
    let mut put = |l: String| {
        out.extend_from_slice(l.as_bytes());
        out.push(b'\n');
    };
    let fresh: Vec<_> = (0..3).map(|_| world.fresh()).collect();
    for _ in 0..2 + w.below(6) {
        match w.below(5) {
            0 | 1 => {
                let n = match w.below(6) {
                    0 => w.below(9),
                    1 => w.below(600),
                    2 => 10_226 + w.below(30),
                    3 => 15_340 + w.below(40),
                    _ => 5_100 + w.below(40),
                };
                let n = n.min(left);
                left -= n;
                for _ in 0..n {
                    put(world.any_known());
                }
            }
            2 => {
                let n = match w.below(4) {
                    0 => 1 + w.below(8),
                    1 => 1013 + w.below(24),
                    _ => 500 + w.below(24),
                };
                for _ in 0..n {
                    put(world.filler());
                }
            }
            _ => {
                for _ in 0..1 + w.below(3) {
                    let f = if w.chance(1, 3) { fresh[w.below(3) as usize].clone() } else { world.fresh() };
                    put(world.novel(&f));
                    for _ in 0..w.below(4) {
                        put(world.any_known());
                    }
                }
            }
        }
    }
    if w.chance(1, 2) {
        out.pop();
    }
    out
}

pub fn baseline_text(world: &mut World) -> Vec<u8> {
    let mut out = Vec::new();
    for i in 0..world.base.len() {
        out.extend_from_slice(world.known(i).as_bytes());
        out.push(b'\n');
    }
    out
}

pub fn put_anoms(out: &mut W, anoms: &[logreduce_model::AnomalyContext]) {
    out.n(anoms.len() as u64);
    for a in anoms {
        out.s(&a.anomaly.line).n(a.anomaly.pos as u64);
        out.n(a.before.len() as u64);
        for b in &a.before {
            out.s(b);
        }
        out.n(a.after.len() as u64);
        for b in &a.after {
            out.s(b);
        }
    }
}
pub fn get_anoms(r: &mut R) -> Vec<Anom> {
    (0..r.n())
        .map(|_| Anom {
            line: r.s(),
            pos: r.n() as usize,
            before: (0..r.n()).map(|_| r.s()).collect(),
            after: (0..r.n()).map(|_| r.s()).collect(),
        })
        .collect()
}

pub fn threads(w: &mut Choices, mut c: PhaseCfg) -> PhaseCfg {
    c.ncpu = *w.pick(&[1usize, 1, 2, 4]);
    c.cap_edges = 3_000_000_000;
    c
}

fn c03(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let n = 1 + w.below(12) as usize;
    let mut world = World::new(w.bulk(), n);
    if w.chance(1, 2) {
        world.tighten();
    }
    let json = w.chance(1, 5);
    let base = baseline_text(&mut world);
    let mut data = if !json && w.chance(1, 12) { floods(w, &mut world) } else { log(w, &mut world, json) };
    let stop = !json && w.chance(1, 8);
    if stop {
        data.extend_from_slice(b"\n2022-01-01 10:00:00 TASK [log-classify : Run logreduce]\n");
        let more = log(w, &mut world, json);
        data.extend_from_slice(&more);
    }
    let style = w.below(6);
    let seed = w.bulk();
    let plan = FaultPlan { rate: *w.pick(&[0, 0, 5]), single_at: None, max: 200 };
    let cfg = threads(w, PhaseCfg::default().fault(plan));
    let ps = pieces(&data, json);
    let want = expected(&ps, &world.cls, &mut HashSet::new());
    ctx.case = format!("baseline of {} lines, log of {} pieces, {} new, json {}, stop marker {}, read style {}, {} cpus", n, ps.len(), want.len(), json, stop, style, cfg.ncpu);
    ctx.nontrivial = !want.is_empty() && ps.len() > 1;
    let extra = ctx.w.below(2);
    let o = ctx.phase(
        "inspect",
        cfg,
        Net::default(),
        Box::new(move || {
            let mut index = logreduce_model::hashing_index::new();
            ChunkTrainer::single(&mut index, json, &base[..]).unwrap();
            let mut skip = HashSet::new();
            let reader = SimReader::new(data, style, seed, &[RD_EINTR, RD_SHORT]);
            let mut p = ChunkProcessor::new(reader, &index, json, &mut skip);
            let mut got = Vec::new();
            let mut errs = 0;
            for a in p.by_ref() {
                match a {
                    Ok(a) => got.push(a),
                    Err(_) => {
                        errs += 1;
                        break;
                    }
                }
            }
            // asking again must not start over
            for _ in 0..extra {
                if let Some(Ok(a)) = p.next() {
                    got.push(a);
                }
            }
            let mut out = W::default();
            put_anoms(&mut out, &got);
            out.n(errs);
            out.0
        }),
    );
    ended(&o)?;
    let mut r = R(&o.result);
    let got = get_anoms(&mut r);
    ensure!(r.n() == 0, "error", "an inspection without faults reported an error");
    diff(&got, &want, "anomalies", "inspection")
}

/// Baselines for C04: many distinct lines over several sources.
fn sources(w: &mut Choices, world: &mut World) -> Vec<Vec<String>> {
    let nsrc = if w.chance(1, 12) { 10 + w.below(40) } else { 1 + w.below(3) } as usize;
    let total = match w.weighted(&[16, 12, 12, 1]) {
        0 => 2 + w.below(10),
        1 => 2 + w.below(100),
        2 => 500 + w.below(620),
        _ => 4000 + w.below(1800),
    } as usize;
    let seed = w.bulk();
    *world = World::new(seed, total);
    let mut r = w.bulk();
    let mut out = vec![Vec::new(); nsrc];
    for i in 0..total {
        let l = world.known(i);
        out[i * nsrc / total].push(l);
        if r.chance(1, 6) {
            // seen before, in other words
            let j = r.below(i as u64 + 1) as usize;
            let l = world.known(j);
            out[i * nsrc / total].push(l);
        }
    }
    out
}

/// Everything that was consumed once more, with other volatile parts, and some new lines as a control.
fn probe(world: &mut World, consumed: &HashSet<u64>, fresh: usize) -> (String, Vec<Anom>) {
    let mut lines = Vec::new();
    for i in 0..world.base.len() {
        if consumed.contains(&world.base[i].1) {
            lines.push(world.known(i));
        }
    }
    for k in 0..fresh {
        let f = world.fresh();
        let l = world.novel(&f);
        let at = if lines.is_empty() { 0 } else { (k * 7919) % lines.len() };
        lines.insert(at, l);
    }
    let text = lines.join("\n");
    let want = expected_data(text.as_bytes(), false, &world.cls);
    (text, want)
}

fn c04_train(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let mut world = World::new(Rng::new(1), 1);
    let srcs = sources(w, &mut world);
    let style = w.below(6);
    let seed = w.below(1 << 30);
    let fail = w.chance(1, 2).then(|| w.below(srcs.len() as u64) as usize);
    let texts: Vec<Vec<u8>> = srcs.iter().map(|s| s.join("\n").into_bytes()).collect();
    // the failing source delivers this much
    let cut = fail.map(|f| w.below(texts[f].len() as u64 + 1) as usize).unwrap_or(0);
    let utf8 = fail.is_some() && w.chance(1, 4);
    let mut consumed = HashSet::new();
    for (i, t) in texts.iter().enumerate() {
        let (t, complete) = if Some(i) == fail { (&t[..cut], true) } else { (&t[..], false) };
        for p in pieces(t, false) {
            if p.2 || !complete {
                consumed.insert(world.cls.map[&p.0].0);
            }
        }
    }
    let (text, want) = probe(&mut world, &consumed, 2);
    let rate = *w.pick(&[0, 6]);
    let cfg = threads(w, PhaseCfg::default().fault(FaultPlan { rate, single_at: None, max: 100 }));
    ctx.case = format!("{} sources, {} templates, {} consumed, failing source {:?} after {} bytes (bad utf-8: {}), read style {}", srcs.len(), world.base.len(), consumed.len(), fail, cut, utf8, style);
    ctx.nontrivial = consumed.len() > 1;
    let o = ctx.phase(
        "train and inspect",
        cfg,
        Net::default(),
        Box::new(move || {
            let mut index = logreduce_model::hashing_index::new();
            let mut trainer = ChunkTrainer::new(&mut index, false);
            let mut failures = 0u64;
            for (i, t) in texts.into_iter().enumerate() {
                let rng = Rng::new(seed + i as u64);
                let kinds = [RD_EINTR, RD_SHORT];
                if Some(i) == fail {
                    let mut t = t[..cut].to_vec();
                    if utf8 {
                        // the break is in the content
                        t.extend_from_slice(b"\xff\xfe broken\nmore");
                        let at = t.len();
                        failures += trainer.add(SimReader::new(t[..at].to_vec(), style, rng, &kinds)).is_err() as u64;
                    } else {
                        body_count(RD_ERR);
                        failures += trainer.add(SimReader::new(t, style, rng, &kinds).then_fail()).is_err() as u64;
                    }
                } else {
                    trainer.add(SimReader::new(t, style, rng, &kinds)).unwrap();
                }
            }
            trainer.complete();
            let mut skip = HashSet::new();
            let got: Vec<_> = ChunkProcessor::new(text.as_bytes(), &index, false, &mut skip).map(|a| a.unwrap()).collect();
            let mut out = W::default();
            put_anoms(&mut out, &got);
            out.n(failures);
            out.0
        }),
    );
    ended(&o)?;
    let mut r = R(&o.result);
    let got = get_anoms(&mut r);
    let failures = r.n();
    ensure!(failures == fail.is_some() as u64, "silent-failure", "{} training failures reported, expected {}", failures, fail.is_some() as u64);
    diff(&got, &want, "learned-line-reported", "inspection after training")
}

/// A baseline of tens of thousands of lines: any of them is known afterwards, whatever comes after it.
fn c04_large(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let n = 6_000 + w.below(8) as usize * 5_000;
    let nsrc = 1 + w.below(4) as usize;
    let mut world = World::new(w.bulk(), 2);
    let pool: Vec<String> = (0..400).map(|_| world.ws.rare(&mut world.r)).collect();
    let mut texts = vec![String::new(); nsrc];
    let mut lines = vec![];
    for i in 0..n {
        let l = (0..10).map(|_| world.r.pick(&pool).clone()).collect::<Vec<_>>().join(" ");
        texts[i * nsrc / n].push_str(&format!("{}\n", l));
        lines.push(l);
    }
    // some of every part of the baseline
    let mut log = String::new();
    let step = 300 + w.below(300) as usize;
    for i in (w.below(300) as usize..n).step_by(step) {
        let c = world.cls.class();
        world.cls.put(&lines[i], c, false);
        log.push_str(&format!("{}\n", lines[i]));
    }
    let f = world.fresh();
    log.push_str(&world.novel(&f));
    let want = expected_data(log.as_bytes(), false, &world.cls);
    ctx.case = format!("{} lines in {} sources, every {}th is inspected", n, nsrc, step);
    ctx.nontrivial = true;
    let cfg = threads(w, PhaseCfg::default());
    let o = ctx.phase(
        "train and inspect",
        cfg,
        Net::default(),
        Box::new(move || {
            let mut index = logreduce_model::hashing_index::new();
            let mut trainer = ChunkTrainer::new(&mut index, false);
            for t in &texts {
                trainer.add(t.as_bytes()).unwrap();
            }
            trainer.complete();
            let mut skip = HashSet::new();
            let got: Vec<_> = ChunkProcessor::new(log.as_bytes(), &index, false, &mut skip).map(|a| a.unwrap()).collect();
            let mut out = W::default();
            put_anoms(&mut out, &got);
            out.0
        }),
    );
    ended(&o)?;
    let got = get_anoms(&mut R(&o.result));
    diff(&got, &want, "learned-line-reported", "inspection after training")
}

fn c04_files(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let mut world = World::new(Rng::new(1), 1);
    let srcs = sources(w, &mut world);
    let texts: Vec<Vec<u8>> = srcs.iter().map(|s| s.join("\n").into_bytes()).collect();
    for (i, t) in texts.iter().enumerate() {
        // one group: the names differ in digits only
        ctx.write(&format!("base/app/service.log.{}", i), t);
    }
    let w = &mut ctx.w;
    let faulty = w.chance(2, 3);
    let plan = if faulty { FaultPlan { rate: 0, single_at: Some(w.below(12)), max: 1 } } else { FaultPlan::default() };
    let cfg = threads(w, PhaseCfg::default().fault(plan).scope("base/app/", &[READ_EIO, READ_SHORT, READ_EINTR, OPEN_EACCES, OPEN_EMFILE, OPEN_ENOENT]));
    let o = ctx.phase(
        "train",
        cfg,
        Net::default(),
        Box::new(move || {
            let content = logreduce_model::Content::from_path(std::path::Path::new("base")).unwrap();
            let m = logreduce_model::Model::train(logreduce_model::OutputMode::Quiet, vec![content], logreduce_model::hashing_index::new);
            match m {
                Ok(m) => {
                    m.save(std::path::Path::new("model")).unwrap();
                    b"ok".to_vec()
                }
                Err(e) => format!("{:#}", e).into_bytes(),
            }
        }),
    );
    ended(&o)?;
    let unopened: Vec<_> = o.harmful().iter().filter(|f| [OPEN_EACCES, OPEN_EMFILE, OPEN_ENOENT].contains(&f.kind)).map(|f| f.what.clone()).collect();
    if o.result != b"ok" && !unopened.is_empty() {
        // a baseline that can not be opened may stop the training, but not in silence
        ctx.case = format!("{} files, {:?} can not be opened, the training fails", srcs.len(), unopened);
        ctx.nontrivial = srcs.len() > 1;
        return Ok(());
    }
    ensure!(o.result == b"ok", "training-failed", "a read failure of one source made the training fail: {}", String::from_utf8_lossy(&o.result));
    let mut consumed = HashSet::new();
    for (i, t) in texts.iter().enumerate() {
        let name = format!("base/app/service.log.{}", i);
        let cut = o.harmful().iter().find(|f| f.what.starts_with(&format!("{} ", name))).map(|f| if unopened.contains(&f.what) { 0 } else { f.offset() });
        for p in pieces(&t[..cut.unwrap_or(t.len())], false) {
            if p.2 || cut.is_none() {
                consumed.insert(world.cls.map[&p.0].0);
            }
        }
    }
    let (text, want) = probe(&mut world, &consumed, 1);
    ctx.write("target/app/service.log", text.as_bytes());
    ctx.case = format!("{} files, {} templates, {} consumed, faults {:?}", srcs.len(), world.base.len(), consumed.len(), o.faults.iter().map(|f| kind_name(f.kind)).collect::<Vec<_>>());
    ctx.nontrivial = consumed.len() > 1;
    let cfg = threads(&mut ctx.w, PhaseCfg::default());
    let o = ctx.phase(
        "inspect",
        cfg,
        Net::default(),
        Box::new(move || {
            let m = logreduce_model::Model::load(std::path::Path::new("model")).unwrap();
            let content = logreduce_model::Content::from_path(std::path::Path::new("target")).unwrap();
            let rep = m.report(logreduce_model::OutputMode::Quiet, content).unwrap();
            let mut out = W::default();
            let all: Vec<_> = rep.log_reports.into_iter().flat_map(|l| l.anomalies).collect();
            put_anoms(&mut out, &all);
            out.0
        }),
    );
    ended(&o)?;
    let got = get_anoms(&mut R(&o.result));
    diff(&got, &want, "learned-line-reported", "inspection after training from files")
}

/// Whatever the baselines are, a copy of them has nothing new.
fn c04_copy(ctx: &mut Ctx) -> Verdict {
    const NAMES: &[&str] = &[
        "a.json", "a.json.1", "a.json.gz", "a1.json", "b/a.json", "b/a2.json", "b/a.json.2", "x.log", "x.log.1", "x.log.gz", "x2.log.gz", "b/x.log", "c/b/x.log", "pod/zuul-7fd.log", "pod/zuul-8ab.log", "pod/y.json", "k8s_a-b.log",
        "k8s_a-c.json", "pvc-1.txt", "qemu/instance-1.log", "qemu/instance-2.json", "c/015da2b/x.log", "c/015da2c/x.log", "c/115da2c/a.json", "log", "1/log", "2/log", "log.txt", "3.log", "_.log", ".hidden", "etc.log", "etcd/z.log", "q/conf",
    ];
    const ODD: &[&str] = &["\u{e9}.log", "with space.log", "a#b.log", "q?x=1.log", "100%.log", "%41.log", "a&b.json", "-x.log", "b\\n.log"];
    let w = &mut ctx.w;
    let remote = w.chance(1, 4);
    let mut r = w.bulk();
    let n = 1 + w.below(7);
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..n {
        let name = if !remote && r.chance(1, 8) { *r.pick(ODD) } else { *r.pick(NAMES) };
        // the crawler follows links that begin with a letter or a digit
        if files.iter().any(|f| f.0 == name) || remote && name.starts_with(['.', '_']) {
            continue;
        }
        let mut d = soup(&mut r, true);
        if !files.is_empty() && r.chance(1, 4) {
            d = files[r.below(files.len() as u64) as usize].1.clone();
            if let Some(i) = d.iter().position(|b| *b == b'\n') {
                // in another order
                d.rotate_left(i + 1);
            }
        }
        files.push((name.to_string(), d));
    }
    if files.is_empty() {
        files.push(("x.log".into(), soup(&mut r, true)));
    }
    // the copy may have fewer lines
    let drop = w.chance(1, 3);
    let mut site = Site::default();
    let mut texts = vec![];
    for (f, d) in &files {
        let mut c = d.clone();
        // without a quote or a line feed that belongs to its neighbours
        if drop && !f.ends_with(".json") && !d.windows(2).any(|x| x == b"\\\n") {
            let keep: Vec<&[u8]> = d.split_inclusive(|b| *b == b'\n').filter(|_| r.chance(2, 3)).collect();
            c = keep.concat();
        }
        for (root, d) in [("base", d), ("target", &c)] {
            // servers send archives as they are named, for the client to decode
            let d = if f.ends_with(".gz") && !remote { gz(d) } else { d.clone() };
            if remote {
                site.put(&format!("/logs/{}/{}", root, f), &d);
            } else {
                ctx.write(&format!("{}/{}", root, f), &d);
            }
        }
        texts.push(format!("{} ({} bytes)", f, d.len()));
    }
    ctx.nontrivial = files.iter().any(|f| pieces(&f.1, false).len() > 1);
    ctx.case = format!("copies of {}; remote {}, lines left out {}", texts.join(", "), remote, drop);
    let mut cfg = threads(&mut ctx.w, PhaseCfg::default());
    if !remote {
        cfg = cfg.fault(FaultPlan { rate: *ctx.w.pick(&[0, 6]), single_at: None, max: 100 }).scope("base", &[READ_SHORT, READ_EINTR]).scope("target", &[READ_SHORT, READ_EINTR]);
    }
    let site = std::rc::Rc::new(site);
    let (base, target) = if remote { ("http://logs.sim/logs/base/", "http://logs.sim/logs/target/") } else { ("base", "target") };
    let o = ctx.phase("train and report", cfg, site.net("logs.sim"), Box::new(move || crate::tree::analyse(base, target)));
    ended(&o)?;
    let got = crate::tree::result(&o).map_err(|e| Viol::new("no-report", e))?;
    ensure!(got.read_errors.is_empty() && got.index_errors.is_empty(), "copy-errors", "a copy of the baselines has errors: {:?} {:?}", got.read_errors, got.index_errors);
    for (p, l) in &got.logs {
        return Err(Viol::new("learned-line-reported", format!("{} is a copy, but has {} anomalies, the first is {}", p, l.0.len(), show(l.0.first()))));
    }
    Ok(())
}

//! C07: models and reports on disk.
use crate::gen::*;
use crate::lines::ended;
use crate::tree::*;
use crate::wire::{R, W};
use logreduce_model::{AnomalyContext, Anomaly, Content, IndexName, IndexReport, LogReport, Model, OutputMode, Report, Source};
use simcore::*;
use std::path::Path;
use std::time::{Duration, SystemTime};

pub const C07: Property = Property {
    id: "C07",
    scenarios: &[(Scenario { name: "model", run: c07_model }, 2), (Scenario { name: "report", run: c07_report }, 2), (Scenario { name: "damage", run: c07_damage }, 2)],
    quick_runs: 20_000,
    thorough_runs: 200_000,
    rule: "a run counts when a fault hit the save or the load, or the stored file was damaged; distinct by content, faults and damage",
    real: "logreduce-model (training, Model and Report save and load), bincode, flate2 and miniz_oxide, logreduce-index, sprs",
    stub: "the file system below the system call interface (full disk, failing, short and interrupted writes and reads, kill at any operation), clock and randomness",
    assumptions: &["a kill loses nothing that was already handed to the operating system", "damage is accidental: it does not recompute the checksum of the file"],
};

const FILE: &str = "out/stored.bin";
const SAVE_FAULTS: &[u32] = &[WRITE_ENOSPC, WRITE_EIO, WRITE_SHORT, WRITE_EINTR, CRASH, CRASH_TORN, POWER_LOSS, DISK_FULL, OPEN_EACCES, OPEN_EIO, OPEN_EMFILE, RENAME_ERR, UNLINK_ERR, FSYNC_ERR, MKDIR_ERR];

pub fn value<T: serde::Serialize>(v: &T) -> String {
    // maps come out sorted
    serde_json::to_value(v).map(|x| x.to_string()).unwrap_or_else(|e| e.to_string())
}
/// All of a report, whatever its serialized form may leave out.
pub fn whole(m: &Report) -> String {
    let mut indexes: Vec<_> = m.index_reports.iter().map(|(n, i)| format!("{} {:?} {:?}", n, i.train_time, i.sources)).collect();
    indexes.sort();
    let logs: Vec<_> = m.log_reports.iter().map(|l| format!("{:?} {} {} {:?} {} {:?}", l.test_time, l.line_count, l.byte_count, l.source, l.index_name, l.anomalies)).collect();
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {} {} {:?} {:?}", m.created_at, m.run_time, m.target, m.baselines, m.index_errors, m.read_errors, m.total_line_count, m.total_anomaly_count, indexes, logs)
}
/// What identifies a stored object.
fn id(s: &str) -> (u64, String) {
    (hash_str(s), s.chars().take(300).collect())
}

#[derive(Clone)]
enum What {
    Model(String),
    Report(u64, u64),
}
fn text(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(2000),
        _ => r.below(120),
    };
    (0..n).map(|_| match r.below(20) {
        0 => 'é',
        1 => '\u{1F4A5}',
        2 => '\0',
        _ => (32 + r.below(95) as u8) as char,
    }).collect()
}
fn source(r: &mut Rng) -> Source {
    if r.chance(1, 3) {
        Source::Remote(r.below(20) as usize, url::Url::parse(&format!("http://logs.sim/x/{}.log", word(r))).unwrap())
    } else {
        Source::Local(r.below(8) as usize, format!("target/{}.log", word(r)).into())
    }
}
/// Any report at all.
fn report(seed: u64, size: u64) -> Report {
    let mut r = Rng::new(seed);
    let mut rep = Report {
        created_at: SystemTime::now(),
        run_time: Duration::from_nanos(r.next() >> 20),
        target: Content::Directory(source(&mut r)),
        baselines: (0..r.below(3)).map(|_| Content::File(source(&mut r))).collect(),
        log_reports: vec![],
        index_reports: Default::default(),
        index_errors: (0..r.below(3)).map(|_| (0..r.below(3)).map(|_| source(&mut r)).collect()).collect(),
        read_errors: (0..r.below(3)).map(|_| (source(&mut r), text(&mut r))).collect(),
        total_line_count: r.below(1 << 40) as usize,
        total_anomaly_count: r.below(1 << 20) as usize,
    };
    for _ in 0..1 + r.below(3) {
        let name = IndexName(word(&mut r));
        rep.index_reports.insert(name.clone(), IndexReport { train_time: Duration::from_millis(r.below(1 << 30)), sources: vec![source(&mut r)] });
        let n = r.below(size + 1);
        rep.log_reports.push(LogReport {
            test_time: Duration::from_millis(r.below(1 << 30)),
            line_count: r.below(1 << 30) as usize,
            byte_count: r.below(1 << 30) as usize,
            anomalies: (0..n)
                .map(|_| AnomalyContext {
                    before: (0..r.below(4)).map(|_| text(&mut r)).collect(),
                    anomaly: Anomaly { distance: r.below(1000) as f32 / 999.0, pos: r.below(1 << 30) as usize, line: text(&mut r) },
                    after: (0..r.below(4)).map(|_| text(&mut r)).collect(),
                })
                .collect(),
            source: source(&mut r),
            index_name: name,
        });
    }
    rep
}
fn train(base: &str) -> Model {
    Model::train(OutputMode::Quiet, vec![content(base).unwrap()], logreduce_model::hashing_index::new).unwrap()
}
/// Make the object, tell what it is, save it, tell whether that worked.
fn save(w: &What) -> Vec<u8> {
    let mut out = W::default();
    let res = match w {
        What::Model(base) => {
            let m = train(base);
            let (h, t) = id(&value(&m));
            out.n(h).s(&t);
            flush(&mut out);
            m.save(Path::new(FILE))
        }
        What::Report(seed, size) => {
            let m = report(*seed, *size);
            let (h, t) = id(&(value(&m) + &whole(&m)));
            out.n(h).s(&t);
            flush(&mut out);
            m.save(Path::new(FILE))
        }
    };
    match res {
        Ok(()) => out.n(1).s(""),
        Err(e) => out.n(0).s(&format!("{:#}", e)),
    };
    out.0
}
/// Hand over what is known so far: the process may be killed.
fn flush(out: &mut W) {
    body_result(&out.0);
    out.0.clear();
}
fn load(w: &What) -> Vec<u8> {
    let mut out = W::default();
    let res = match w {
        What::Model(_) => Model::load(Path::new(FILE)).map(|m| value(&m)),
        What::Report(..) => Report::load(Path::new(FILE)).map(|m| value(&m) + &whole(&m)),
    };
    match res {
        Ok(v) => {
            let (h, t) = id(&v);
            out.n(1).n(h).s(&t);
        }
        Err(e) => {
            out.n(0).n(0).s(&format!("{:#}", e));
        }
    }
    out.0
}

fn model_tree(w: &mut Choices, ctx_dir: &str, write: &mut dyn FnMut(&str, &[u8])) -> What {
    // a few groups, some with enough lines for several chunks and several writes
    let ng = 1 + w.below(3);
    let mut r = w.bulk();
    for g in 0..ng {
        let n = match w.below(6) {
            0 => 500 + w.below(1500),
            1 => 0,
            _ => 1 + w.below(20),
        };
        let mut d = Vec::new();
        for _ in 0..n {
            for _ in 0..2 + r.below(8) {
                d.extend_from_slice(word(&mut r).as_bytes());
                d.push(b' ');
            }
            d.push(b'\n');
        }
        write(&format!("{}/{}{}.log", ctx_dir, ["alpha", "beta", "gamma"][g as usize], g), &d);
    }
    What::Model(ctx_dir.into())
}
fn make(ctx: &mut Ctx, model: bool, dir: &str) -> What {
    if model {
        let mut files: Vec<(String, Vec<u8>)> = vec![];
        let wh = model_tree(&mut ctx.w, dir, &mut |p, d| files.push((p.into(), d.to_vec())));
        for (p, d) in files {
            ctx.write(&p, &d);
        }
        wh
    } else {
        let s = *ctx.w.pick(&[3u64, 20, 400]);
        What::Report(ctx.w.below(1 << 32), s)
    }
}
struct Saved {
    id: u64,
    text: String,
    ok: Option<Result<(), String>>,
}
fn saved(o: &Out) -> Option<Saved> {
    let mut r = R(&o.result);
    if r.done() {
        return None;
    }
    let (id, text) = (r.n(), r.s());
    let ok = if r.done() {
        None
    } else {
        let ok = r.n();
        let e = r.s();
        Some(if ok == 1 { Ok(()) } else { Err(e) })
    };
    Some(Saved { id, text, ok })
}
fn loaded(o: &Out) -> Result<(u64, String), String> {
    let mut r = R(&o.result);
    let (k, h, t) = (r.n(), r.n(), r.s());
    if k == 1 {
        Ok((h, t))
    } else {
        Err(t)
    }
}
fn c07_model(ctx: &mut Ctx) -> Verdict {
    crash(ctx, true)
}
fn c07_report(ctx: &mut Ctx) -> Verdict {
    crash(ctx, false)
}
/// Save, possibly over an older version and possibly failing, then load.
fn crash(ctx: &mut Ctx, model: bool) -> Verdict {
    ctx.write("out/other", b"");
    let mut versions: Vec<(u64, String)> = vec![];
    let mut last_ok = false;
    let n = 1 + ctx.w.below(3);
    let mut last = None;
    for k in 0..n {
        let wh = make(ctx, model, &format!("base{}", k));
        // only the last save may fail
        let cfg = if k + 1 < n && ctx.w.chance(2, 3) {
            PhaseCfg::default()
        } else {
            let p = match ctx.w.below(4) {
                0 => FaultPlan::default(),
                1 => FaultPlan { rate: 3, single_at: None, max: 10 },
                _ => FaultPlan { rate: 0, single_at: Some(log_uniform(&mut ctx.w, 24)), max: 1 },
            };
            PhaseCfg::default().fault(p).scope("out/", SAVE_FAULTS)
        };
        let w2 = wh.clone();
        let o = ctx.phase("save", cfg, Net::default(), Box::new(move || save(&w2)));
        if o.end != End::Crash {
            ended(&o)?;
        }
        ctx.nontrivial |= !o.faults.is_empty();
        let s = saved(&o).ok_or_else(|| Viol::new("harness", "the saving process said nothing"))?;
        match &s.ok {
            Some(Ok(())) => {
                versions = vec![(s.id, s.text)];
                last_ok = true;
            }
            Some(Err(e)) => {
                ensure!(!o.faults.is_empty(), "save-failed", "saving without faults failed: {}", e);
                versions.push((s.id, s.text));
                last_ok = false;
            }
            None => {
                versions.push((s.id, s.text));
                last_ok = false;
            }
        }
        last = Some(wh);
    }
    ctx.case = format!("{} saves, the last {}", n, if last_ok { "succeeded" } else { "failed" });
    let wh = last.unwrap();
    let faulty = ctx.w.chance(1, 3);
    let mut cfg = PhaseCfg::default();
    if faulty {
        cfg = cfg.fault(FaultPlan { rate: 0, single_at: Some(ctx.w.below(5)), max: 1 }).scope("out/", &[READ_EIO, READ_EINTR, READ_SHORT, OPEN_EIO]);
    }
    let o = ctx.phase("load", cfg, Net::default(), Box::new(move || load(&wh)));
    ended(&o)?;
    let hit = o.faults.iter().any(|f| f.kind != READ_SHORT);
    match loaded(&o) {
        Ok(v) => ensure!(versions.iter().any(|x| x.0 == v.0), "different", "loading gave something that was never saved there: {} instead of {:?}", v.1, versions.iter().map(|v| &v.1).collect::<Vec<_>>()),
        Err(e) => ensure!(hit || !last_ok, "refused", "what was saved successfully can not be loaded: {}", e),
    }
    Ok(())
}
/// A complete file is damaged, then loaded.
fn c07_damage(ctx: &mut Ctx) -> Verdict {
    ctx.write("out/other", b"");
    let model = ctx.w.chance(1, 2);
    let wh = make(ctx, model, "base");
    let w2 = wh.clone();
    let o = ctx.phase("save", PhaseCfg::default(), Net::default(), Box::new(move || save(&w2)));
    ended(&o)?;
    let s = saved(&o).unwrap();
    ensure!(s.ok == Some(Ok(())), "save-failed", "saving without faults failed: {:?}", s.ok);
    let p = ctx.path(FILE);
    let mut d = std::fs::read(&p).map_err(|e| Viol::new("no-file", format!("a successful save left no file: {}", e)))?;
    let n = d.len() as u64;
    let kind = match ctx.w.below(4) {
        0 => {
            let at = match ctx.w.below(3) {
                0 => n - 1 - ctx.w.below(n.min(12)),
                _ => ctx.w.below(n),
            };
            d.truncate(at as usize);
            ctx.case = format!("cut at {} of {}", at, n);
            MUT_TRUNC
        }
        1 => {
            let at = match ctx.w.below(3) {
                0 => n - 1 - ctx.w.below(n.min(12)),
                1 => ctx.w.below(n.min(80)),
                _ => ctx.w.below(n),
            };
            let bit = ctx.w.below(8);
            d[at as usize] ^= 1 << bit;
            ctx.case = format!("bit {} of byte {} of {} flipped", bit, at, n);
            MUT_FLIP
        }
        2 => {
            // a block that was never written
            let at = ctx.w.below(n) as usize;
            let len = (1 + ctx.w.below(4096) as usize).min(d.len() - at);
            let zero = ctx.w.chance(1, 2);
            let mut r = ctx.w.bulk();
            for b in &mut d[at..at + len] {
                *b = if zero { 0 } else { r.next() as u8 };
            }
            ctx.case = format!("{} bytes at {} of {} replaced", len, at, n);
            MUT_JUNK
        }
        _ => {
            // something else altogether
            let mut r = ctx.w.bulk();
            d = match ctx.w.below(4) {
                0 => vec![],
                1 => b"<html>not what was stored here</html>".to_vec(),
                2 => (0..r.below(5000)).map(|_| r.next() as u8).collect(),
                _ => {
                    use std::io::Write;
                    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
                    let junk: Vec<u8> = (0..r.below(3000)).map(|_| if r.chance(1, 2) { 0 } else { r.next() as u8 }).collect();
                    e.write_all(&junk).unwrap();
                    e.finish().unwrap()
                }
            };
            ctx.case = "replaced by something else".into();
            MUT_JUNK
        }
    };
    ctx.mutated(kind);
    std::fs::write(&p, d).unwrap();
    ctx.nontrivial = true;
    let mut cfg = PhaseCfg::default();
    cfg.rlimit_as = Some(6 << 30);
    let o = ctx.phase("load", cfg, Net::default(), Box::new(move || load(&wh)));
    ended(&o)?;
    if let Ok(v) = loaded(&o) {
        ensure!(v.0 == s.id, "different", "a damaged file ({}) was loaded as something else: {} instead of {}", ctx.case, v.1, s.text);
    }
    Ok(())
}

//! C14: transfers and archives.
use crate::crawl::NET_FAULTS;
use crate::gen::*;
use crate::lines::{ended, pieces};
use crate::proc::threads;
use crate::tree::*;
use crate::web::Site;
use simcore::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::rc::Rc;

pub const C14: Property = Property {
    id: "C14",
    scenarios: &[(Scenario { name: "transfer", run: c14_transfer }, 3), (Scenario { name: "archive", run: c14_archive }, 2)],
    quick_runs: 11_000,
    thorough_runs: 150_000,
    rule: "a run counts when a transfer was hit by a fault or segmented, or an archive was damaged or has several members; distinct by content, faults, damage and schedule",
    real: "logreduce-model (reader, report, file and url discovery), reqwest, hyper, tokio and its gzip decoding, httpdir, flate2, walkdir, logreduce-index, logreduce-tokenizer, logreduce-iterator",
    stub: "sockets, name resolution and the web server, the file system below the system call interface, futexes, clock and randomness",
    assumptions: &["lines are built so that their distance is clearly below or above the threshold", "the index pages are intact, so that it is known which logs there are", "archives are damaged by truncation, flipped bits or lost blocks"],
};

/// Anomalies, lines and bytes of a file, of all of it or after a number of its complete lines.
fn part(t: &Tree, i: usize, lines: Option<u64>) -> (Vec<Anom>, u64, u64) {
    let f = &t.target[i];
    let g = &t.groups[f.group];
    let mut ps = pieces(&f.data, g.json);
    if let Some(n) = lines {
        ps.retain(|p| p.2);
        ps.truncate(n as usize);
    }
    let a = expected(&ps, &t.worlds[g.world].cls, &mut HashSet::new());
    (a, ps.len() as u64, ps.iter().map(|p| p.0.len() as u64).sum())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum May {
    /// must be analysed in full
    Full,
    /// in full, or a read error after some of its lines
    Fail,
    /// must be a read error after some of its lines
    Must,
    /// in full, or a read error with whatever was decoded before it
    Garbled,
}
/// Compare with what may have become of every file; files do not share new lines.
pub fn judge(t: &Tree, root: &str, may: &[May], got: &Canon) -> Verdict {
    ensure!(got.odd.is_empty(), "malformed-report", "{:?}", got.odd);
    let (mut lo, mut hi, mut anoms) = (0, 0, 0);
    let mut orphans = Vec::new();
    for (i, f) in t.target.iter().enumerate() {
        let src = format!("{}{}", root, f.rel);
        if !t.matched(f.group) {
            orphans.push(src);
            continue;
        }
        let failed = got.read_errors.iter().filter(|e| **e == src).count();
        ensure!(failed < 2, "read-errors", "{} has {} read errors", src, failed);
        let full = part(t, i, None);
        let entry = got.logs.get(&src);
        anoms += entry.map_or(0, |e| e.0.len() as u64);
        if failed == 0 {
            ensure!(may[i] != May::Must, "taken-for-complete", "{} was damaged, but is reported like a complete log: {}", src, show(entry.and_then(|e| e.0.first())));
            let empty = (vec![], full.1, full.2);
            let e = entry.unwrap_or(&empty);
            diff(&e.0, &full.0, "log-anomalies", &src)?;
            ensure!((e.1, e.2) == (full.1, full.2), "log-size", "{}: {} lines {} bytes, expected {} and {}", src, e.1, e.2, full.1, full.2);
            lo += full.1;
            hi += full.1;
            continue;
        }
        ensure!(may[i] != May::Full, "read-error", "{} is intact, but reported as a read error", src);
        if may[i] == May::Garbled {
            lo += entry.map_or(0, |e| e.1);
            hi += 1 << 40;
            continue;
        }
        match entry {
            Some(e) => {
                ensure!(*e == part(t, i, Some(e.1)) || *e == full, "invented", "{} failed, but what is reported is not a part of it: {:?}", src, e.0.iter().map(|a| show(Some(a))).collect::<Vec<_>>());
                lo += e.1;
                hi += e.1;
            }
            None => hi += full.1,
        }
    }
    for s in &got.read_errors {
        ensure!(t.target.iter().any(|f| format!("{}{}", root, f.rel) == *s), "read-errors", "a read error for {}, which is not part of the target", s);
    }
    for s in got.logs.keys() {
        ensure!(t.target.iter().any(|f| format!("{}{}", root, f.rel) == *s && t.matched(f.group)), "log-invented", "{} is reported, but not part of the target", s);
    }
    orphans.sort();
    ensure!(orphans == got.index_errors, "baseline-errors", "logs without baseline: {:?}, expected {:?}", got.index_errors, orphans);
    ensure!(lo <= got.lines && got.lines <= hi, "total-lines", "total of {} lines, expected {} to {}", got.lines, lo, hi);
    ensure!(got.anomalies == anoms, "total-anomalies", "total of {} anomalies, but {} are shown", got.anomalies, anoms);
    Ok(())
}

pub const URL: &str = "http://logs.sim/logs/target/";
const CONN: &[u32] = &[CONN_REFUSED, CONN_TIMEOUT, DNS_FAIL];

fn c14_transfer(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let t = tree(w, &Shape { groups: 3, ..Default::default() });
    // the only index of a model matches everything
    let single = t.target.len() == 1 && t.groups.iter().filter(|g| g.trained).count() == 1 && w.chance(1, 2);
    let mut site = Site::default();
    // logs that are stored compressed and served as such to everybody, and logs that have moved
    let mut stored = HashSet::new();
    let mut moved = BTreeMap::new();
    for (i, f) in t.target.iter().enumerate() {
        let mut path = format!("/logs/target/{}", f.rel);
        site.put(&path, &f.data);
        if w.chance(1, 8) {
            let to = format!("/store/{}/{}", i, f.rel);
            site.put(&to, &f.data);
            moved.insert(path, to.clone());
            path = to;
        }
        if w.chance(1, 6) {
            stored.insert(path);
        }
    }
    let p = match w.below(4) {
        0 => FaultPlan::default(),
        1 => FaultPlan { rate: 2, single_at: None, max: 8 },
        _ => FaultPlan { rate: 0, single_at: Some(w.below(1 + t.target.len() as u64)), max: 1 },
    };
    let conn = w.chance(1, 6);
    let kinds: Vec<u32> = NET_FAULTS.iter().copied().filter(|k| conn || !CONN.contains(k)).collect();
    let cfg = threads(w, PhaseCfg::default().fault(p).net_faults(&kinds));
    t.write(ctx);
    let site = Rc::new(site);
    let to = moved.clone();
    let net = Net::new(
        &["logs.sim"],
        Box::new(move |q| {
            let mut r = site.answer(q);
            if let Some(l) = to.get(&q.path) {
                r = Resp::status(302, "<html><body>the log\nhas moved\n</body></html>\n");
                r.headers.push(("Location".into(), l.clone()));
            } else if stored.contains(&q.path) {
                r.body = gz_whole(&r.body);
                r.headers.push(("Content-Encoding".into(), "gzip".into()));
                r.encode = false;
            }
            r.faulty = !q.path.ends_with('/');
            r
        }),
    );
    let target = if single { format!("{}{}", URL, t.target[0].rel) } else { URL.to_string() };
    let o = ctx.phase("train and report", cfg, net, Box::new(move || analyse("base", &target)));
    ended(&o)?;
    let harm = o.harmful();
    ctx.case = format!("{}; {}", t.describe(), harm.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    ctx.nontrivial = !o.faults.is_empty() || o.requests > 1;
    let loose = harm.iter().any(|f| !f.what.starts_with("GET "));
    match result(&o) {
        Err(e) => {
            ensure!(loose, "no-report", "the report failed although only logs were damaged: {}", e);
            Ok(())
        }
        Ok(got) => {
            let may: Vec<May> = t
                .target
                .iter()
                .map(|f| {
                    let u = format!("GET {}{}", URL, f.rel);
                    let v = moved.get(&format!("/logs/target/{}", f.rel)).map(|m| format!("GET http://logs.sim{}", m));
                    if loose || harm.iter().any(|x| x.what == u || Some(&x.what) == v.as_ref()) {
                        May::Fail
                    } else {
                        May::Full
                    }
                })
                .collect();
            judge(&t, URL, &may, &got)
        }
    }
}

fn gz_whole(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
/// An archive, and where its members end: in the archive and in the data.
fn gz(w: &mut Choices, data: &[u8]) -> (Vec<u8>, Vec<(usize, usize)>) {
    let n = if w.chance(1, 3) { 1 + w.below(4) as usize } else { 1 };
    let mut cuts: Vec<usize> = (1..n).map(|_| w.below(data.len() as u64 + 1) as usize).collect();
    cuts.push(data.len());
    cuts.sort();
    let mut out = Vec::new();
    let mut p = 0;
    let mut ends = Vec::new();
    for c in cuts {
        let mut b = flate2::GzBuilder::new();
        if w.chance(1, 3) {
            b = b.filename("messages.log").mtime(1_600_000_000).comment("rotated");
        }
        if w.chance(1, 6) {
            b = b.extra(vec![1, 2, 3]);
        }
        let mut e = b.write(out, *w.pick(&[flate2::Compression::fast(), flate2::Compression::none(), flate2::Compression::best()]));
        e.write_all(&data[p..c]).unwrap();
        out = e.finish().unwrap();
        p = c;
        ends.push((out.len(), c));
    }
    (out, ends)
}
fn c14_archive(ctx: &mut Ctx) -> Verdict {
    let mut t = tree(&mut ctx.w, &Shape { groups: 3, json: false, style: Some(2), ..Default::default() });
    let mut may = Vec::new();
    let mut notes = Vec::new();
    let mut files = Vec::new();
    let w = &mut ctx.w;
    for f in t.target.iter_mut() {
        let mut fate = May::Full;
        let mut d = f.data.clone();
        // (a number before the extension would put the file into a group of its own)
        let end = f.rel.as_bytes().last().unwrap();
        if w.chance(3, 4) && end.is_ascii_alphabetic() {
            f.rel.push_str(".gz");
            let (z, ends) = gz(w, &f.data);
            d = z;
            if ends.len() > 1 {
                notes.push(format!("{} has several members", f.rel));
            }
            let n = d.len() as u64;
            let kind = w.weighted(&[4, 2, 2, 1]);
            match kind {
                1 => {
                    let at = if w.chance(1, 2) { n - 1 - w.below(n.min(24)) } else { w.below(n) };
                    let mid = |n: usize| n > 0 && n < f.data.len() && f.data[n - 1] != b'\n';
                    let at = at - ends.iter().any(|e| e.0 == at as usize && mid(e.1)) as u64;
                    d.truncate(at as usize);
                    notes.push(format!("{} cut at {} of {}", f.rel, at, n));
                    match ends.iter().find(|e| e.0 == at as usize) {
                        // an archive cut between two members is an archive
                        Some(e) => f.data.truncate(e.1),
                        None => fate = May::Must,
                    }
                }
                2 => {
                    let at = if w.chance(1, 3) { n - 1 - w.below(n.min(8)) } else { w.below(n) } as usize;
                    d[at] ^= 1 << w.below(8);
                    // the header may be hit, where nothing is lost
                    fate = May::Garbled;
                    notes.push(format!("{} flipped at {} of {}", f.rel, at, n));
                }
                3 => {
                    let at = w.below(n) as usize;
                    let len = (20 + w.below(512) as usize).min(d.len() - at);
                    let before = d.clone();
                    d[at..at + len].fill(0);
                    if before != d {
                        fate = May::Garbled;
                        notes.push(format!("{} lost {} bytes at {} of {}", f.rel, len, at, n));
                    }
                }
                _ => {}
            }
        }
        files.push((f.rel.clone(), d));
        may.push(fate);
    }
    for f in &t.base {
        ctx.write(&format!("base/{}", f.rel), &f.data);
    }
    for (n, d) in &files {
        ctx.write(&format!("target/{}", n), d);
    }
    for _ in may.iter().filter(|m| **m != May::Full) {
        ctx.mutated(MUT_JUNK);
    }
    ctx.case = format!("{}; {}", t.describe(), notes.join(", "));
    ctx.nontrivial = !notes.is_empty();
    let p = FaultPlan { rate: *ctx.w.pick(&[0u64, 0, 8]), single_at: None, max: 4 };
    let cfg = threads(&mut ctx.w, PhaseCfg::default().fault(p).scope("target/", &[READ_EIO, READ_SHORT, READ_EINTR]));
    let o = ctx.phase("train and report", cfg, Net::default(), Box::new(|| analyse("base", "target")));
    ended(&o)?;
    let got = result(&o).map_err(|e| Viol::new("no-report", format!("a damaged archive prevented the report: {}", e)))?;
    for (i, f) in t.target.iter().enumerate() {
        if o.harmful().iter().any(|x| x.what.starts_with(&format!("target/{} ", f.rel))) && may[i] == May::Full {
            may[i] = May::Must;
        }
    }
    judge(&t, "target/", &may, &got)
}

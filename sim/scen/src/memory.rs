//! C19: memory stays bounded, however long lines are and however often they repeat.
use crate::cli::{program, strs, Prog};
use crate::gen::*;
use crate::lines::ended;
use crate::proc::{baseline_text, threads};
use crate::tree::analyse;
use crate::web::Site;
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use simcore::*;
use std::collections::HashSet;
use std::io::{Read, Write};
use std::rc::Rc;
use url::Url;

pub const C19: Property = Property {
    id: "C19",
    scenarios: &[(Scenario { name: "stream", run: c19_stream }, 4), (Scenario { name: "whole", run: c19_whole }, 3)],
    quick_runs: 500,
    thorough_runs: 20_000,
    rule: "a run counts when the longer stream is at least three times the shorter one; distinct by content, segmentation, faults and schedule",
    real: "logreduce-iterator, logreduce-model (training, inspection, readers), logreduce-index, logreduce-tokenizer, logreduce-cache, logreduce-cli, reqwest, hyper and tokio, flate2, rayon; every allocation of the simulated process is counted",
    stub: "the underlying reader or the file system below the system call interface, sockets and the server, futexes, clock and randomness",
    assumptions: &["both streams have the same distinct lines", "growth of less than 1.8 megabytes is taken for the effect of the schedule"],
};

const SLACK: u64 = 1_800_000;

/// A head, a block that is repeated up to a length, and a tail.
#[derive(Clone)]
struct Long {
    head: Vec<u8>,
    block: Vec<u8>,
    tail: Vec<u8>,
    /// length of the repetitions
    n: u64,
    /// where the block has a number of ten digits that tells the repetitions apart
    at: Vec<usize>,
}
impl Long {
    /// The number of a repetition.
    fn number(&self, k: u64, place: usize) -> [u8; 10] {
        let x = 1_000_000_000 + mix(k, place as u64) % 9_000_000_000;
        format!("{:010}", x).into_bytes().try_into().unwrap()
    }
    fn at(&self, pos: u64, buf: &mut [u8]) -> usize {
        let h = self.head.len() as u64;
        let (src, off, left) = if pos < h {
            (&self.head, pos as usize, h - pos)
        } else if pos < h + self.n {
            let o = ((pos - h) % self.block.len() as u64) as usize;
            (&self.block, o, h + self.n - pos)
        } else {
            (&self.tail, ((pos - h - self.n) as usize).min(self.tail.len()), u64::MAX)
        };
        let n = (src.len() - off).min(buf.len()).min(left as usize);
        buf[..n].copy_from_slice(&src[off..off + n]);
        if pos >= h && pos < h + self.n {
            let k = (pos - h) / self.block.len() as u64;
            for a in &self.at {
                if *a < off + n && a + 10 > off {
                    for (i, c) in self.number(k, *a).iter().enumerate() {
                        if (off..off + n).contains(&(a + i)) {
                            buf[a + i - off] = *c;
                        }
                    }
                }
            }
        }
        n
    }
    fn all(&self) -> Vec<u8> {
        let mut v = vec![0; self.head.len() + self.n as usize + self.tail.len()];
        let mut pos = 0;
        while pos < v.len() {
            pos += self.at(pos as u64, &mut v[pos..]);
        }
        v
    }
    fn reader(&self, style: u64, seed: u64, fail: bool) -> LongReader {
        LongReader { l: self.clone(), pos: 0, style, rng: Rng::new(seed), fail }
    }
}
struct LongReader {
    l: Long,
    pos: u64,
    style: u64,
    rng: Rng,
    fail: bool,
}
impl Read for LongReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind::*};
        let mut n = match self.style {
            0 => buf.len(),
            1 => buf.len().min(1448),
            2 => buf.len().min(1 + self.rng.below(9000) as usize),
            _ => buf.len().min(if self.rng.chance(1, 4) { 1 + self.rng.below(40) as usize } else { 8192 }),
        };
        match body_fault(&[RD_EINTR, RD_SHORT]) {
            Some((RD_EINTR, _)) => return Err(Error::new(Interrupted, "simulated signal")),
            Some((_, x)) => n = n.min(1 + x as usize),
            None => {}
        }
        let mut got = 0;
        while got < n {
            let k = self.l.at(self.pos, &mut buf[got..n]);
            if k == 0 {
                break;
            }
            self.pos += k as u64;
            got += k;
        }
        if got == 0 && self.fail && !buf.is_empty() {
            return Err(Error::new(ConnectionReset, "simulated failure"));
        }
        Ok(got)
    }
}

/// The short and the long stream, and a baseline.
fn streams(w: &mut Choices, json: bool) -> (Long, Long, Vec<u8>, &'static str) {
    let n = 1 + w.below(12) as usize;
    let mut world = World::new(w.bulk(), n);
    let base = baseline_text(&mut world);
    let mut line = |w: &mut Choices| -> Vec<u8> {
        let mut l = if w.chance(1, 4) {
            let f = world.fresh();
            world.novel(&f)
        } else {
            world.any_known()
        }
        .into_bytes();
        l.push(b'\n');
        l
    };
    let mut head = Vec::new();
    for _ in 0..w.below(6) {
        head.extend(line(w));
    }
    let mut tail = Vec::new();
    for _ in 0..w.below(6) {
        tail.extend(line(w));
    }
    let mut block = Vec::new();
    let mut at = Vec::new();
    let (what, small, big): (_, u64, u64);
    match w.below(6) {
        0 | 1 => {
            // one line that does not end
            (what, small, big) = ("one long line", 200_000, 3_000_000);
            block = match w.below(8) {
                0 => b"x".to_vec(),
                1 => b"\\\\".to_vec(),
                2 => "\u{e9}\u{1f980} ".as_bytes().to_vec(),
                3 => vec![0],
                4 => b"some words and 1234 numbers ".to_vec(),
                5 => b"\\t".to_vec(),
                6 => vec![b'y'; 6000],
                _ => b" ".to_vec(),
            };
            if json {
                // within quotes nothing separates
                head.extend_from_slice(b"\"");
                if w.chance(1, 2) {
                    block = b"a, [b] {c} ".to_vec();
                }
            }
        }
        2 => {
            (what, small, big) = ("many long lines", 200_000, 3_000_000);
            for _ in 0..1 + w.below(4) {
                let n = 6001 + w.below(12_000) as usize;
                block.extend(std::iter::repeat_n(b"xyz "[w.below(4) as usize], n));
                block.extend_from_slice(if w.chance(1, 2) { b"\n" } else { b"\\n" });
            }
        }
        3 => {
            (what, small, big) = ("empty lines", 200_000, 3_000_000);
            block = w.pick(&[b"\n".to_vec(), b"\\n".to_vec(), b"\n\\n".to_vec()]).clone();
            if json {
                block = b"{},[]\n".to_vec();
            }
        }
        _ => {
            what = "repeated lines";
            let numbers = w.chance(2, 3);
            for _ in 0..1 + w.below(30) {
                block.extend(line(w));
                if numbers {
                    block.pop();
                    block.push(b' ');
                    at.push(block.len());
                    block.extend_from_slice(b"0123456789\n");
                }
            }
            let per = block.len() as u64 / block.iter().filter(|c| **c == b'\n').count() as u64;
            // (the inspection keeps up to some five thousand lines)
            (small, big) = (12_000 * per, 42_000 * per);
        }
    }
    if at.is_empty() && block.len() < 4096 {
        block = block.repeat(4096 / block.len());
    }
    // whole blocks only
    let whole = |n: u64| n / block.len() as u64 * block.len() as u64;
    let (small, big) = (whole(small), whole(big));
    let l = Long { head, block, tail, n: small, at };
    (l.clone(), Long { n: big, ..l }, base, what)
}
fn judge(a: &Out, b: &Out, what: &str) -> Verdict {
    ensure!(b.peak <= a.peak + SLACK, "grows", "{}: {} bytes of memory for the short one, {} for the long one", what, a.peak, b.peak);
    Ok(())
}

fn c19_stream(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let json = w.chance(1, 5);
    let (short, long, base, kind) = streams(w, json);
    let job = w.below(4);
    let style = w.below(4);
    let seed = w.below(1 << 30);
    let fail = w.chance(1, 6);
    let plan = FaultPlan { rate: *w.pick(&[0, 0, 50]), single_at: None, max: 200 };
    let cfg = threads(w, PhaseCfg::default().fault(plan));
    let what = format!("{} ({})", ["splitting", "training", "inspecting", "caching"][job as usize], kind);
    ctx.case = format!("{}, block of {} bytes, {} and {} bytes, json {}, read style {}, fails {}", what, short.block.len(), short.n, long.n, json, style, fail);
    ctx.nontrivial = long.n >= 3 * short.n;
    let mut outs = Vec::new();
    for l in [short, long] {
        let base = base.clone();
        let mut cfg = cfg.clone();
        if job == 3 {
            cfg.env.push(("XDG_CACHE_HOME".into(), "@SCRATCH@/cache".into()));
        }
        let o = ctx.phase(
            &format!("{} {} bytes", what, l.n),
            cfg,
            Net::default(),
            Box::new(move || {
                let r = l.reader(style, seed, fail);
                match job {
                    0 => {
                        for x in logreduce_iterator::BytesLines::new(r, json) {
                            drop(x);
                        }
                    }
                    1 => {
                        let mut index = logreduce_model::hashing_index::new();
                        let _ = ChunkTrainer::single(&mut index, json, r);
                    }
                    2 => {
                        let mut index = logreduce_model::hashing_index::new();
                        ChunkTrainer::single(&mut index, false, &base[..]).unwrap();
                        let mut skip = HashSet::new();
                        for x in ChunkProcessor::new(r, &index, json, &mut skip) {
                            if x.is_err() {
                                break;
                            }
                        }
                    }
                    _ => {
                        let u = Url::parse("http://logs.sim/f").unwrap();
                        let cache = logreduce_cache::Cache::new().unwrap();
                        let _ = std::io::copy(&mut cache.remote_add(&u, &u, r).unwrap(), &mut std::io::sink());
                        if let Some(r) = cache.remote_get(&u, &u) {
                            let _ = std::io::copy(&mut r.unwrap(), &mut std::io::sink());
                        }
                        let _ = cache.remote_drop(&u, &u);
                    }
                }
                vec![]
            }),
        );
        ended(&o)?;
        outs.push(o);
    }
    judge(&outs[0], &outs[1], &what)
}

fn c19_whole(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let json = w.chance(1, 5);
    let (short, long, base, kind) = streams(w, json);
    let remote = w.chance(1, 2);
    let zipped = !remote && w.chance(1, 2);
    let cached = remote && w.chance(1, 2);
    // the long one is the baseline
    let train = w.chance(1, 3);
    let live = !remote && w.chance(1, 3);
    let plan = FaultPlan { rate: *w.pick(&[0, 0, 50]), single_at: None, max: 50 };
    let mut cfg = threads(w, PhaseCfg::default().fault(plan).scope("short/", &[READ_SHORT]).scope("long/", &[READ_SHORT]));
    if cached {
        cfg.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
    }
    let what = format!(
        "{}{}{} ({})",
        if live { "showing " } else { "" },
        if train { "training" } else { "inspecting" },
        match (remote, zipped, cached) {
            (true, _, true) => " a remote log with cache",
            (true, ..) => " a remote log",
            (_, true, _) => " an archive",
            _ => " a file",
        },
        kind
    );
    ctx.case = format!("{}, block of {} bytes, {} and {} bytes, json {}", what, short.block.len(), short.n, long.n, json);
    ctx.nontrivial = long.n >= 3 * short.n;
    let name = if json { "app/service.json" } else { "app/service.log" };
    let mut outs = Vec::new();
    for (root, l) in [("short", short), ("long", long)] {
        let mut cfg = cfg.clone();
        cfg.env.push(("XDG_CACHE_HOME".into(), format!("@SCRATCH@/cache-{}", root)));
        let data = l.all();
        let (b, t) = if train { (data, base.clone()) } else { (base.clone(), data) };
        let what = format!("{} {} bytes", what, l.n);
        let o = if remote {
            let mut site = Site::default();
            site.put(&format!("/base/{}", name), &b);
            site.put(&format!("/target/{}", name), &t);
            ctx.phase(&what, cfg, Rc::new(site).net("logs.sim"), Box::new(|| { analyse("http://logs.sim/base/", "http://logs.sim/target/"); vec![] }))
        } else {
            for (d, x) in [("base", &b), ("target", &t)] {
                if zipped {
                    let mut z = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
                    z.write_all(x).unwrap();
                    ctx.write(&format!("{}/{}/{}.gz", root, d, name), &z.finish().unwrap());
                } else {
                    ctx.write(&format!("{}/{}/{}", root, d, name), x);
                }
            }
            if live {
                let args = strs(&["diff", &format!("{}/base", root), &format!("{}/target", root)]);
                program(ctx, &what, Prog::Logreduce, &args, cfg, Net::default())
            } else {
                let (b, t) = (format!("{}/base", root), format!("{}/target", root));
                ctx.phase(&what, cfg, Net::default(), Box::new(move || { analyse(&b, &t); vec![] }))
            }
        };
        ended(&o)?;
        outs.push(o);
    }
    judge(&outs[0], &outs[1], &what)
}

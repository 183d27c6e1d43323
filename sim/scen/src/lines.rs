//! C01 and C02: splitting a stream into log lines.
use crate::wire::{R, W};
use logreduce_iterator::BytesLines;
use simcore::*;
use std::io::Read;

pub const C01: Property = Property {
    id: "C01",
    scenarios: &[(Scenario { name: "segmentation", run: c01 }, 1)],
    quick_runs: 60_000,
    thorough_runs: 600_000,
    rule: "a run counts when the stream has at least two pieces and was delivered in at least two reads; runs are distinct by stream, segmentation and injected interruptions",
    real: "logreduce-iterator (BytesLines) and the bytes crate",
    stub: "the underlying reader (in-memory stream with simulated segmentation and interruptions)",
    assumptions: &["streams of at most a few hundred kilobytes", "a reader that reports Interrupted has delivered nothing (std::io::Read contract)"],
};
pub const C02: Property = Property {
    id: "C02",
    scenarios: &[(Scenario { name: "error", run: c02_error }, 2), (Scenario { name: "end", run: c02_end }, 1)],
    quick_runs: 90_000,
    thorough_runs: 600_000,
    rule: "a run counts when a read error was injected after at least one delivered byte, or the reader offered more bytes after its end; distinct by stream, segmentation and fault position",
    real: "logreduce-iterator (BytesLines) and the bytes crate",
    stub: "the underlying reader (in-memory stream with simulated segmentation, errors and resumption)",
    assumptions: &["streams of at most a few hundred kilobytes"],
};

const MAX: usize = 6000;

/// The specification: what a stream consists of. The flag tells whether the piece is complete.
pub fn pieces(data: &[u8], json: bool) -> Vec<(Vec<u8>, usize, bool)> {
    let mut out = Vec::new();
    let (mut esc, mut quoted) = (false, false);
    let mut start = 0;
    let mut line = 1;
    for (i, c) in data.iter().enumerate() {
        let cut = if esc {
            esc = false;
            (*c == b'n').then_some(2)
        } else {
            match c {
                b'\\' => {
                    esc = true;
                    None
                }
                b'\n' => Some(1),
                b'"' if json => {
                    quoted = !quoted;
                    None
                }
                b',' | b'[' | b']' | b'{' | b'}' if json && !quoted => Some(1),
                _ => None,
            }
        };
        if let Some(n) = cut {
            out.push((data[start..i + 1 - n].to_vec(), line, true));
            start = i + 1;
            if *c == b'\n' {
                line += 1;
            }
        }
    }
    out.push((data[start..].to_vec(), line, false));
    out.retain(|p| !p.0.is_empty() && p.0.len() <= MAX);
    out
}

/// A stream rich in boundaries.
fn stream(w: &mut Choices) -> (Vec<u8>, bool) {
    let json = w.chance(1, 3);
    let mut out: Vec<u8> = Vec::new();
    let n = 1 + match w.weighted(&[3, 4, 2, 1]) {
        0 => w.below(6),
        1 => w.below(40),
        2 => w.below(200),
        _ => w.below(900),
    };
    let big = w.below(3);
    if w.chance(1, 16) {
        // what files may begin with
        out.extend_from_slice(*w.pick(&[b"\xef\xbb\xbf".as_slice(), b"\xff\xfe", b"\x1f\x8b", b"#!", b"\0"]));
    }
    for _ in 0..n {
        if out.len() > 300_000 {
            break;
        }
        let c = w.below(256) as u8;
        let len = match w.weighted(&[4, 10, 4, 1 + big, 1 + big, 1 + big, big]) {
            0 => 0,
            1 => w.below(90),
            2 => w.below(1500),
            3 => 5990 + w.below(20),
            4 => {
                // end just around a refill
                let next = (out.len() / 8192 + 1) * 8192 + 6;
                (next as u64 - out.len() as u64).saturating_sub(w.below(12))
            }
            5 => 8180 + w.below(24),
            _ => w.below(40_000),
        };
        let plain: Vec<u8> = match c % 8 {
            0 => b"word and more ".to_vec(),
            1 => b"x".to_vec(),
            2 => b"a, \"quoted, [text]\" {b} ".to_vec(),
            3 => vec![0xff, 0xfe, b'k', b'n', 0],
            4 => b"back\\slash \\t ".to_vec(),
            5 => "d\u{e9}j\u{e0} vu \u{1f980} ".as_bytes().to_vec(),
            6 => b"n".to_vec(),
            _ => vec![b'a' + c % 26, b' ', b'0' + c % 10],
        };
        out.extend(plain.iter().cycle().take(len as usize));
        match w.weighted(&[10, 5, 2, 1, 1, 1, 1]) {
            0 => out.push(b'\n'),
            1 => out.extend(b"\\n"),
            2 => out.extend(if json { b",".as_slice() } else { b"\r\n".as_slice() }),
            3 => out.extend(b"\\"),
            4 => out.extend(b"\\\\n"),
            5 => out.extend(b"\\\n"),
            _ => out.extend(b"\"}]"),
        }
    }
    if w.chance(1, 3) {
        // no final separator
        out.extend(b"tail of it");
    }
    (out, json)
}

pub struct SimReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub style: u64,
    pub rng: Rng,
    pub kinds: Vec<u32>,
    pub failed: bool,
    pub ended: bool,
    pub reads: u64,
    /// bytes offered after the end was reported
    pub grow: Vec<u8>,
    pub fail_at_end: bool,
}
impl SimReader {
    pub fn new(data: Vec<u8>, style: u64, seed: Rng, kinds: &[u32]) -> SimReader {
        SimReader {
            data,
            pos: 0,
            style,
            rng: seed,
            kinds: kinds.to_vec(),
            failed: false,
            ended: false,
            reads: 0,
            grow: vec![],
            fail_at_end: false,
        }
    }
    /// Fail where the data ends.
    pub fn then_fail(mut self) -> SimReader {
        self.fail_at_end = true;
        self
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind::*};
        self.reads += 1;
        if self.failed {
            // a broken stream does not recover; what comes now must not be used
            let n = buf.len().min(7);
            buf[..n].copy_from_slice(&b"LATE\nL\n"[..n]);
            return Ok(n);
        }
        let left = self.data.len() - self.pos;
        let mut n = left.min(buf.len());
        if let Some((k, x)) = body_fault(&self.kinds) {
            match k {
                RD_EINTR => return Err(Error::new(Interrupted, "simulated signal")),
                RD_ERR => {
                    self.failed = true;
                    let kind = [Other, ConnectionReset, UnexpectedEof, TimedOut, InvalidData, BrokenPipe][x as usize % 6];
                    return Err(Error::new(kind, "simulated failure"));
                }
                _ => n = n.min(1 + x as usize),
            }
        }
        if n == 0 && !buf.is_empty() && left == 0 {
            if self.fail_at_end {
                self.failed = true;
                return Err(Error::new(ConnectionReset, "simulated failure"));
            }
            if self.ended && !self.grow.is_empty() {
                let n = self.grow.len().min(buf.len());
                buf[..n].copy_from_slice(&self.grow[..n]);
                body_count(RD_GROW);
                return Ok(n);
            }
            self.ended = true;
            return Ok(0);
        }
        n = match self.style {
            0 => n,
            1 => 1,
            2 => 1 + self.rng.below(16) as usize,
            3 => 1 + self.rng.below(n as u64) as usize,
            4 => n.saturating_sub(self.rng.below(3) as usize),
            5 => [n, 1, 2, 4096][self.rng.below(4) as usize],
            _ => {
                // stop right before or after something special
                let s = &self.data[self.pos..self.pos + n];
                let from = self.rng.below(n as u64) as usize;
                match s[from..].iter().position(|c| b"\\\n,{\"".contains(c)) {
                    Some(p) => from + p + self.rng.below(3) as usize,
                    None => n,
                }
            }
        }
        .clamp(1, n);
        if n < left.min(buf.len()) {
            body_count(RD_SHORT);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(PartialEq, Debug)]
enum Item {
    Line(Vec<u8>, usize),
    Error,
    End,
    Reads(u64, u64),
    Runaway,
}

fn collect(reader: SimReader, json: bool, extra: usize) -> Vec<u8> {
    struct Shared(std::rc::Rc<std::cell::RefCell<SimReader>>);
    impl Read for Shared {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.0.borrow_mut().read(b)
        }
    }
    let cap = reader.data.len() + 100;
    let rc = std::rc::Rc::new(std::cell::RefCell::new(reader));
    let mut it = BytesLines::new(Shared(rc.clone()), json);
    let mut out = W::default();
    let mut after_end = 0;
    let mut n = 0;
    loop {
        match it.next() {
            Some(Ok((b, l))) => {
                out.n(0).b(&b).n(l as u64);
            }
            Some(Err(_)) => {
                out.n(1);
            }
            None => {
                out.n(2);
                after_end += 1;
                if after_end > extra {
                    break;
                }
            }
        }
        n += 1;
        if n > cap {
            out.n(4);
            break;
        }
    }
    let r = rc.borrow();
    out.n(3).n(r.reads).n(r.pos as u64);
    out.0
}
fn decode(b: &[u8]) -> Vec<Item> {
    let mut r = R(b);
    let mut v = Vec::new();
    while !r.done() {
        v.push(match r.n() {
            0 => Item::Line(r.b().to_vec(), r.n() as usize),
            1 => Item::Error,
            2 => Item::End,
            3 => Item::Reads(r.n(), r.n()),
            _ => Item::Runaway,
        });
    }
    v
}

fn show(i: Option<&Item>) -> String {
    match i {
        Some(Item::Line(b, l)) => {
            let s = String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
            format!("line {} of {} bytes {:?}", l, b.len(), s)
        }
        Some(o) => format!("{:?}", o),
        None => "nothing".into(),
    }
}
fn compare(got: &[Item], want: &[Item], key: &str) -> Verdict {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Err(Viol::new(key, format!("item {}: got {}, expected {}", i, show(got.get(i)), show(want.get(i)))));
        }
    }
    Ok(())
}
fn lines_of(p: Vec<(Vec<u8>, usize, bool)>) -> Vec<Item> {
    p.into_iter().map(|p| Item::Line(p.0, p.1)).collect()
}
pub fn ended(o: &Out) -> Verdict {
    match &o.end {
        End::Done => Ok(()),
        End::Harness(s) => Err(Viol::new("harness", s.clone())),
        End::Panic => Err(Viol::new("panic", o.describe_end())),
        End::Hang => Err(Viol::new("hang", "no end within the step bound")),
        End::Deadlock => Err(Viol::new("deadlock", "all threads wait for each other")),
        e => Err(Viol::new("abnormal-end", format!("{:?} {}", e, o.panics))),
    }
}

fn c01(ctx: &mut Ctx) -> Verdict {
    let (data, json) = stream(&mut ctx.w);
    let style = ctx.w.below(7);
    let seed = ctx.w.bulk();
    let plan = FaultPlan { rate: *ctx.w.pick(&[0, 0, 3, 20]), single_at: None, max: 4000 };
    let want = lines_of(pieces(&data, json));
    ctx.case = format!("{} bytes, json {}, {} lines, read style {}", data.len(), json, want.len(), style);
    let r = SimReader::new(data, style, seed, &[RD_EINTR, RD_SHORT]);
    let o = ctx.phase("split", PhaseCfg::default().fault(plan), Net::default(), Box::new(move || collect(r, json, 0)));
    ended(&o)?;
    let mut got = decode(&o.result);
    ensure!(!got.contains(&Item::Runaway), "runaway", "more items than bytes");
    if let Some(Item::Reads(n, _)) = got.pop() {
        ctx.nontrivial = want.len() > 1 && n > 2;
    }
    got.pop();
    compare(&got, &want, "lines")
}

fn c02_error(ctx: &mut Ctx) -> Verdict {
    let (data, json) = stream(&mut ctx.w);
    let style = ctx.w.below(7);
    let seed = ctx.w.bulk();
    let at = match ctx.w.below(3) {
        0 => ctx.w.below(4),
        1 => ctx.w.below(40),
        _ => ctx.w.below(data.len() as u64 + 2),
    };
    let plan = FaultPlan { rate: 0, single_at: Some(at), max: 1 };
    ctx.case = format!("{} bytes, json {}, read style {}, error at read {}", data.len(), json, style, at);
    let r = SimReader::new(data.clone(), style, seed, &[RD_ERR]);
    let o = ctx.phase("split", PhaseCfg::default().fault(plan), Net::default(), Box::new(move || collect(r, json, 3)));
    ended(&o)?;
    let mut got = decode(&o.result);
    ensure!(!got.contains(&Item::Runaway), "runaway", "iteration does not end after the failure");
    let Some(Item::Reads(_, pos)) = got.pop() else { unreachable!() };
    let failed = !o.faults.is_empty();
    let mut want = if failed {
        ctx.nontrivial = pos > 0;
        let mut w = lines_of(pieces(&data[..pos as usize], json).into_iter().filter(|p| p.2).collect());
        w.push(Item::Error);
        w
    } else {
        lines_of(pieces(&data, json))
    };
    for _ in 0..4 {
        want.push(Item::End);
    }
    compare(&got, &want, "lines-around-error")
}

fn c02_end(ctx: &mut Ctx) -> Verdict {
    let (data, json) = stream(&mut ctx.w);
    let style = ctx.w.below(7);
    let seed = ctx.w.bulk();
    let extra = 1 + ctx.w.below(5) as usize;
    let mut r = SimReader::new(data.clone(), style, seed, &[]);
    r.grow = if ctx.w.chance(1, 2) { b"resumed line\nand another\n".to_vec() } else { vec![] };
    let grow = !r.grow.is_empty();
    ctx.case = format!("{} bytes, json {}, read style {}, asked {} times after the end, grows {}", data.len(), json, style, extra, grow);
    ctx.nontrivial = grow;
    let o = ctx.phase("split", PhaseCfg::default(), Net::default(), Box::new(move || collect(r, json, extra)));
    ended(&o)?;
    let mut got = decode(&o.result);
    ensure!(!got.contains(&Item::Runaway), "runaway", "iteration does not end after the end of the stream");
    got.pop();
    let mut want = lines_of(pieces(&data, json));
    for _ in 0..=extra {
        want.push(Item::End);
    }
    compare(&got, &want, "lines-after-end")
}

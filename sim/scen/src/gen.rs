//! Log content whose classification is known by construction.
//!
//! Words are made of syllables that no normalisation rule touches. A template is ten such words; a line made from it
//! may carry volatile parts. A line is known when it is a baseline template (or differs from one in a single word),
//! and new when at least half of its words occur nowhere in the baseline. Some templates of other lengths are just
//! below or just above the threshold.
use crate::lines::pieces;
use simcore::*;
use std::collections::{HashMap, HashSet};

pub fn word(r: &mut Rng) -> String {
    let c = b"ghjklmnpqrstvwz";
    let v = b"iou";
    let n = 2 + r.below(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(c[r.below(15) as usize] as char);
        s.push(v[r.below(3) as usize] as char);
    }
    s
}
/// What the volatile parts of the lines may become, and their constant words.
const TOKENS: [&str; 17] = [
    "", "took", "seconds", "%ID", "%GL_FILTER", "%URL", "%HASH", "%COOKIE", "%BASE64", "%PATH", "%REF", "%DATE", "token%EQ", "%VALUE_ID", "nodeN", "%UID", "Traceback",
];

/// Words that never repeat, not even as features of the index (which hashes words into a bounded space).
#[derive(Clone, Default)]
pub struct Words(HashSet<u32>);
impl Words {
    fn bucket(w: &str) -> u32 {
        fxhash::hash32(w) % 260_000
    }
    pub fn rare(&mut self, r: &mut Rng) -> String {
        if self.0.is_empty() {
            self.0.extend(TOKENS.map(Self::bucket));
        }
        loop {
            let s: String = format!("{}{}{}", word(r), word(r), word(r)).chars().take(22).collect();
            if self.0.insert(Self::bucket(&s)) {
                return s;
            }
        }
    }
}

#[derive(Clone)]
pub struct Template {
    pub words: Vec<String>,
    pub shape: u64,
}
impl Template {
    pub fn new(r: &mut Rng, ws: &mut Words) -> Template {
        if r.chance(1, 60) {
            // up to 5000 bytes
            let n = 40 + r.below(170) as usize;
            return Template::plain(n, r, ws);
        }
        let words = (0..10).map(|_| ws.rare(r)).collect();
        Template { words, shape: if r.chance(1, 2) { r.below(6) } else { 6 + r.below(11) } }
    }
    /// The line, with fresh volatile parts.
    pub fn line(&self, r: &mut Rng) -> String {
        let w = self.words.join(" ");
        match self.shape {
            0 => w,
            1 => format!("2022-0{}-1{} 1{}:2{}:3{} | {}", 1 + r.below(9), r.below(10), r.below(10), r.below(10), r.below(10), w),
            2 => format!("{} took {} seconds", w, 1000 + r.below(1_000_000)),
            3 => format!("({}) {} 0x{:08x}", r.below(100_000), w, r.below(1 << 32)),
            4 => format!("{} {} of {}", w, r.below(5000), 100_000 + r.below(1000)),
            5 => format!("  {}", w),
            6 => format!("{} req-{}", w, uuid(r)),
            7 => format!("{} https://10.0.{}.{}/v3/{}?q={}", w, r.below(256), r.below(256), r.below(1000), alnum(r, 8)),
            8 => format!("md5:{} {}", hex(r, 32), w),
            9 => format!("{} 10.{}.{}.{}", w, r.below(256), r.below(256), r.below(256)),
            10 => format!("{} {}", uuid(r), w),
            11 => format!("{} /tmp/{}", w, alnum(r, 9)),
            12 => format!("{} refs/changes/{}/{}", w, r.below(100), r.below(100_000)),
            13 => format!("{} {} {}", r.pick(&["Monday", "Sunday", "friday"]), r.pick(&["February", "May", "august"]), w),
            14 => {
                let n = 3 + r.below(8) as usize;
                format!("{} token={}", w, alnum(r, n))
            }
            15 => {
                let n = 25 + r.below(20) as usize;
                format!("{} Q{}", w, alnum(r, n))
            }
            _ => format!("node{} {} {:02x}:{:02x}:{:02x}", r.below(10_000), w, r.below(256), r.below(256), r.below(256)),
        }
    }
    /// A template of n words, without volatile parts.
    pub fn plain(n: usize, r: &mut Rng, ws: &mut Words) -> Template {
        Template { words: (0..n).map(|_| ws.rare(r)).collect(), shape: 0 }
    }
    /// Replace n words by new ones: the first, the last, or some in between.
    pub fn mutate(&self, n: usize, r: &mut Rng, ws: &mut Words) -> Template {
        let mut t = self.clone();
        let len = t.words.len();
        let from = match r.below(3) {
            0 => 0,
            1 => len - n,
            _ => r.below(len as u64) as usize,
        };
        for i in 0..n {
            t.words[(from + i) % len] = ws.rare(r);
        }
        t
    }
}
fn hex(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| char::from_digit(r.below(16) as u32, 16).unwrap()).collect()
}
fn uuid(r: &mut Rng) -> String {
    [8, 4, 4, 4, 12].map(|n| hex(r, n)).join("-")
}
fn alnum(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect()
}

/// Classification of line contents: class (normalised form) and whether it is new to the baseline.
#[derive(Default, Clone)]
pub struct Classes {
    pub map: HashMap<Vec<u8>, (u64, bool)>,
    next: u64,
}
impl Classes {
    pub fn class(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    pub fn put(&mut self, line: &str, class: u64, new: bool) {
        self.map.insert(line.as_bytes().to_vec(), (class, new));
    }
}

pub struct World {
    pub r: Rng,
    pub ws: Words,
    pub base: Vec<(Template, u64)>,
    pub cls: Classes,
}
impl World {
    pub fn new(mut r: Rng, n: usize) -> World {
        let mut cls = Classes::default();
        let mut ws = Words::default();
        let base = (0..n).map(|_| (Template::new(&mut r, &mut ws), cls.class())).collect();
        World { r, ws, base, cls }
    }
    /// Continue with words that another world has not used.
    pub fn chained(mut r: Rng, n: usize, ws: &mut Words) -> World {
        let mut cls = Classes::default();
        let base = (0..n).map(|_| (Template::new(&mut r, ws), cls.class())).collect();
        World { r, ws: ws.clone(), base, cls }
    }
    /// Make some baseline templates just as long that a line can come close to the threshold of 0.3.
    pub fn tighten(&mut self) {
        for i in 0..self.base.len() {
            if self.r.chance(1, 2) {
                let n = self.r.pick(&[13, 14, 16, 17, 20]).to_owned();
                self.base[i].0 = Template::plain(n, &mut self.r, &mut self.ws);
            }
        }
    }
    /// A line of baseline template i.
    pub fn known(&mut self, i: usize) -> String {
        let (t, c) = self.base[i % self.base.len()].clone();
        let l = t.line(&mut self.r);
        self.cls.put(&l, c, false);
        l
    }
    pub fn any_known(&mut self) -> String {
        let i = self.r.below(self.base.len() as u64) as usize;
        self.known(i)
    }
    /// A known line with a normalised form of its own.
    pub fn filler(&mut self) -> String {
        let i = self.r.below(self.base.len() as u64) as usize;
        let len = self.base[i].0.words.len();
        // at most 2/10, 3/13, 4/14, 4/16, 5/17 or 5/20 of the words
        let most = match len {
            10 => 2,
            13 => 3,
            14 | 16 => 4,
            n if n > 20 => n / 4,
            _ => 5,
        };
        let n = if self.r.chance(1, 3) { most } else { 1 + self.r.below(most as u64) as usize };
        let t = self.base[i].0.mutate(n, &mut self.r, &mut self.ws);
        let l = t.line(&mut self.r);
        let c = self.cls.class();
        self.cls.put(&l, c, false);
        l
    }
    /// A template that is new to the baseline.
    pub fn fresh(&mut self) -> (Template, u64) {
        let t = if self.r.chance(1, 4) {
            let i = self.r.below(self.base.len() as u64) as usize;
            let len = self.base[i].0.words.len();
            // at least 4/10, 4/13, 5/14, 5/16, 6/17 or 7/20 of the words
            let least = match len {
                10 | 13 => 4,
                14 | 16 => 5,
                17 => 6,
                n if n > 20 => n * 35 / 100 + 1,
                _ => 7,
            };
            // volatile parts have words of their own
            let least = if self.base[i].0.shape != 0 { 5 } else { least };
            let n = least + self.r.below(3) as usize;
            self.base[i].0.mutate(n, &mut self.r, &mut self.ws)
        } else {
            Template::new(&mut self.r, &mut self.ws)
        };
        (t, self.cls.class())
    }
    pub fn novel(&mut self, f: &(Template, u64)) -> String {
        let l = f.0.line(&mut self.r);
        self.cls.put(&l, f.1, true);
        l
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Anom {
    pub line: String,
    pub pos: usize,
    pub before: Vec<String>,
    pub after: Vec<String>,
}

/// Where the findings of an inspection are: the first line of the context before, the new line, the end of the context
/// after it.
pub fn spans(ps: &[(Vec<u8>, usize, bool)], cls: &Classes, seen: &mut HashSet<u64>) -> Vec<(usize, usize, usize)> {
    let mut out: Vec<(usize, usize, usize)> = Vec::new();
    let mut open = false;
    let mut free = 0; // first line not yet used in a context
    for (i, p) in ps.iter().enumerate() {
        let t = String::from_utf8_lossy(&p.0);
        if t.contains("TASK [log-classify") {
            break;
        }
        let (class, new) = cls.map.get(&p.0).copied().unwrap_or_else(|| panic!("unclassified line {:?}", t));
        let first = seen.insert(class);
        if new && first {
            out.push((free.max(i.saturating_sub(3)), i, i + 1));
            free = i + 1;
            open = true;
        } else if open {
            let a = out.last_mut().unwrap();
            a.2 = i + 1;
            free = i + 1;
            open = a.2 - a.1 < 4;
        }
    }
    out
}
/// The specification of an inspection over the pieces of a log.
pub fn expected(ps: &[(Vec<u8>, usize, bool)], cls: &Classes, seen: &mut HashSet<u64>) -> Vec<Anom> {
    let text = |i: usize| String::from_utf8_lossy(&ps[i].0).into_owned();
    spans(ps, cls, seen)
        .into_iter()
        .map(|(from, i, to)| Anom { line: text(i), pos: ps[i].1, before: (from..i).map(text).collect(), after: (i + 1..to).map(text).collect() })
        .collect()
}
pub fn expected_data(data: &[u8], json: bool, cls: &Classes) -> Vec<Anom> {
    expected(&pieces(data, json), cls, &mut HashSet::new())
}

pub fn diff(got: &[Anom], want: &[Anom], key: &str, what: &str) -> Verdict {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Err(Viol::new(
                key,
                format!("{}: anomaly {} of {} (expected {}): got {}, expected {}", what, i, got.len(), want.len(), show(got.get(i)), show(want.get(i))),
            ));
        }
    }
    Ok(())
}
pub fn show(a: Option<&Anom>) -> String {
    let cut = |s: &String| s.chars().take(40).collect::<String>();
    match a {
        None => "nothing".into(),
        Some(a) => format!(
            "line {} {:?} before {:?} after {:?}",
            a.pos,
            cut(&a.line),
            a.before.iter().map(cut).collect::<Vec<_>>(),
            a.after.iter().map(cut).collect::<Vec<_>>()
        ),
    }
}

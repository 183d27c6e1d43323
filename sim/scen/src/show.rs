//! C16: what the user gets to see is what the inspection found.
use crate::cli::*;
use crate::gen::*;
use crate::report::fates;
use crate::tree::*;
use crate::web::Site;
use simcore::*;
use std::collections::HashSet;
use std::rc::Rc;

pub const C16: Property = Property {
    id: "C16",
    scenarios: &[(Scenario { name: "live", run: c16_live }, 1), (Scenario { name: "page", run: c16_page }, 1)],
    quick_runs: 12_000,
    thorough_runs: 150_000,
    rule: "a run counts when the target has at least one new line; distinct by content, faults and schedule",
    real: "the whole program: logreduce-cli (live output), logreduce-report (page) with everything below them down to libc",
    stub: "the file system below the system call interface, sockets and the web server, standard output and error, futexes, clock and randomness",
    assumptions: &["standard output can be written", "lines are built so that their distance is clearly below or above the threshold"],
};

/// Text with a meaning for browsers and terminals' readers.
const MARKUP: &[&str] = &["<b>", "</pre>", "<script>", "&amp;", "&lt;", "a&b", "\"", "'", "<!--", "-->", "]]>", "</html>", "<", ">", "&", "| 12 |", "é", "日本", "--"];

/// Put lines with markup into baselines and targets.
fn decorate(w: &mut Choices, t: &mut Tree) {
    let mut r = w.bulk();
    for g in 0..t.groups.len() {
        if t.groups[g].json {
            continue;
        }
        let world = &mut t.worlds[t.groups[g].world];
        let line = |world: &mut World, r: &mut Rng, new: bool| {
            let mut words: Vec<String> = (0..10).map(|_| world.ws.rare(r)).collect();
            for _ in 0..1 + r.below(4) {
                let m = r.pick(MARKUP).to_string();
                let at = r.below(words.len() as u64 + 1) as usize;
                words.insert(at, m);
            }
            let l = words.join(" ");
            let c = world.cls.class();
            world.cls.put(&l, c, new);
            l
        };
        let mut known = vec![];
        if t.groups[g].trained {
            for f in t.base.iter_mut().filter(|f| f.group == g) {
                for _ in 0..r.below(3) {
                    let l = line(world, &mut r, false);
                    f.data.extend_from_slice(l.as_bytes());
                    f.data.push(b'\n');
                    known.push(l);
                }
            }
        }
        for f in t.target.iter_mut().filter(|f| f.group == g) {
            for _ in 0..r.below(5) {
                let l = if !known.is_empty() && r.chance(1, 2) { known[r.below(known.len() as u64) as usize].clone() } else { line(world, &mut r, true) };
                let mut ends: Vec<usize> = f.data.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect();
                ends.push(0);
                let at = ends[r.below(ends.len() as u64) as usize];
                f.data.splice(at..at, format!("{}\n", l).bytes());
            }
        }
    }
}

/// Put everything that is in a directory below one whose name looks like markup.
fn rename(w: &mut Choices, t: &mut Tree) {
    let mut r = w.bulk();
    let n: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(&["<b>", "\"", "\" onclick=\"x", "&amp;", "a&b", "'", "<", ">", "\">", "é", "--", "%20", " "])).collect();
    let n = format!("x{}y", n.join("z"));
    for f in t.base.iter_mut().chain(t.target.iter_mut()) {
        if f.rel.contains('/') {
            f.rel = format!("{}/{}", n, f.rel);
        }
    }
}

/// A line as it is shown: number, text, and whether it is a finding.
#[derive(Clone, Debug)]
struct Shown {
    nr: usize,
    /// the number when lines that are left out or share a number are not taken into account
    plain: usize,
    text: String,
    new: bool,
}
impl PartialEq for Shown {
    fn eq(&self, o: &Shown) -> bool {
        (self.nr == o.nr || self.nr == o.plain || self.plain == o.nr) && self.text == o.text && self.new == o.new
    }
}
/// The numbers of context lines are guessed from that of the new line. (A known finding.)
fn guessed<'a>(got: impl Iterator<Item = &'a Shown>, want: impl Iterator<Item = &'a Shown>) -> Verdict {
    let off: Vec<(&Shown, &Shown)> = got.zip(want).filter(|(g, w)| g.nr != w.nr).take(1).collect();
    if let Some((g, w)) = off.first() {
        return Err(Viol::new("guessed-number", format!("context line {:?} has number {}, shown is {}", w.text, w.nr, g.nr)));
    }
    Ok(())
}
fn wanted(t: &Tree, i: usize, fate: &Fate, seen: &mut HashSet<u64>) -> Vec<Shown> {
    let f = &t.target[i];
    let g = &t.groups[f.group];
    let ps = readable(&f.data, g.json, fate);
    let mut out = vec![];
    for (from, at, to) in spans(&ps, &t.worlds[g.world].cls, seen) {
        let first = ps[at].1.saturating_sub(1 + at - from) + 1;
        for j in from..to {
            let plain = if j < at { first + j - from } else { ps[at].1 + j - at };
            out.push(Shown { nr: ps[j].1, plain, text: String::from_utf8_lossy(&ps[j].0).into_owned(), new: j == at });
        }
    }
    out
}
fn parse(l: &str) -> Option<Shown> {
    let (head, text) = l.split_once(" | ")?;
    let n: Vec<&str> = head.split_whitespace().collect();
    let nr = n.last()?.parse().ok()?;
    match n.len() {
        1 if head.starts_with(' ') => Some(Shown { nr, plain: nr, text: text.into(), new: false }),
        2 if n[0].parse::<u32>().is_ok() => Some(Shown { nr, plain: nr, text: text.into(), new: true }),
        _ => None,
    }
}
fn compare(got: &[Shown], want: &[Shown], what: &str) -> Verdict {
    for i in 0..got.len().max(want.len()) {
        ensure!(got.get(i) == want.get(i), "shown-lines", "{}: line {} of {} (expected {}): shown {:?}, expected {:?}", what, i, got.len(), want.len(), got.get(i), want.get(i));
    }
    Ok(())
}

fn make(ctx: &mut Ctx) -> Tree {
    let w = &mut ctx.w;
    let big = w.chance(1, 3);
    let mut t = tree(w, &Shape { groups: 3, files: 3, big, many: true, split: true, ..Default::default() });
    if w.chance(3, 4) {
        decorate(w, &mut t);
    }
    t
}
fn plan(w: &mut Choices) -> FaultPlan {
    match w.below(3) {
        0 => FaultPlan::default(),
        1 => FaultPlan { rate: 6, single_at: None, max: 3 },
        _ => FaultPlan { rate: 0, single_at: Some(w.below(20)), max: 1 },
    }
}
const FAULTS: &[u32] = &[READ_EIO, READ_SHORT, READ_EINTR, OPEN_EACCES, OPEN_EMFILE, OPEN_EIO, OPEN_ENOENT];

/// Run the program over local files or a site; the result has what became of each log, or nothing after a failure.
fn run(ctx: &mut Ctx, t: &mut Tree, a: &[String]) -> Result<Option<(Out, Vec<Fate>, &'static str)>, Viol> {
    let remote = ctx.w.chance(1, 5);
    let mut cfg = PhaseCfg { tty: ctx.w.chance(1, 4), vary: ctx.w.chance(1, 2), ..PhaseCfg::default() };
    let mut a = a.to_vec();
    let mut site = Site::default();
    let root = if remote {
        t.publish(&mut site);
        a.push("diff".into());
        a.extend(t.base_urls().split(' ').map(|s| s.to_string()));
        a.push("http://logs.sim/logs/target/".into());
        "http://logs.sim/logs/target/"
    } else {
        if ctx.w.chance(1, 3) {
            rename(&mut ctx.w, t);
        }
        cfg = cfg.fault(plan(&mut ctx.w)).scope("target/", FAULTS);
        a.push("diff".into());
        a.extend(t.bases().split(' ').map(|s| s.to_string()));
        a.push("target".into());
        "target/"
    };
    t.write(ctx);
    ctx.write("out/.keep", b"");
    let site = Rc::new(site);
    let o = program(ctx, "program", Prog::Logreduce, &a, cfg, site.net("logs.sim"));
    let st = status(&o)?;
    ctx.case = format!("{}; {}; {}", a.join(" "), t.describe(), o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    if st != Some(0) {
        ensure!(excused(&o), "failed", "without harmful faults the status is {:?}: {} {}", st, o.err, o.panics);
        return Ok(None);
    }
    let f = fates(&*t, root, &o);
    Ok(Some((o, f, root)))
}

/// The terminal shows the findings of each log, one log after the other.
fn c16_live(ctx: &mut Ctx) -> Verdict {
    let mut t = make(ctx);
    let Some((o, fates, root)) = run(ctx, &mut t, &[])? else { return Ok(()) };
    let mut blocks: Vec<(String, Vec<Shown>)> = vec![];
    for (i, f) in t.target.iter().enumerate() {
        let g = &t.groups[f.group];
        let named = |s: &str| o.out.lines().any(|l| l.contains(s) && (l.contains(&format!("{}{}", root, f.rel)) || l.contains(&f.rel)));
        if !t.matched(f.group) {
            ensure!(named("No baselines"), "error-not-shown", "{} has no baseline, but the output does not say so", f.rel);
            continue;
        }
        if broken(&f.data, g.json, &fates[i]) {
            ensure!(named("Could not read"), "error-not-shown", "{} could not be read, but the output does not say so", f.rel);
        }
        let b = wanted(&t, i, &fates[i], &mut HashSet::new());
        if !b.is_empty() {
            blocks.push((f.rel.clone(), b));
        }
    }
    ctx.nontrivial = !blocks.is_empty();
    let got: Vec<Shown> = o.out.lines().filter_map(parse).collect();
    // the logs may come in any order
    blocks.sort_by_key(|b| std::cmp::Reverse(b.1.len()));
    let mut rest = &got[..];
    let mut order = vec![];
    while let Some(i) = blocks.iter().position(|b| rest.starts_with(&b.1)) {
        order.extend(blocks[i].1.clone());
        rest = &rest[blocks[i].1.len()..];
        blocks.remove(i);
    }
    if let Some((rel, b)) = blocks.iter().find(|b| rest.iter().any(|l| l == b.1.iter().find(|x| x.new).unwrap())).or(blocks.first()) {
        let from = rest.iter().position(|l| l == b.iter().find(|x| x.new).unwrap()).unwrap_or(0).saturating_sub(b.iter().position(|x| x.new).unwrap());
        return compare(&rest[from..rest.len().min(from + b.len())], b, rel);
    }
    ensure!(rest.is_empty(), "shown-lines", "{} lines are shown without reason, the first is {:?}", rest.len(), rest[0]);
    guessed(got.iter(), order.iter())
}

fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        let end = rest.find(';')?;
        let c = match &rest[..end] {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            n => match (n.strip_prefix("#x").or(n.strip_prefix("#X")), n.strip_prefix('#')) {
                (Some(h), _) => char::from_u32(u32::from_str_radix(h, 16).ok()?)?,
                (_, Some(d)) => char::from_u32(d.parse().ok()?)?,
                _ => return None,
            },
        };
        out.push(c);
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Some(out)
}
/// The texts and the start tags of a page, as far as it matters here.
enum Part {
    Tag(String),
    Text(String),
}
fn parts(html: &str) -> Result<Vec<Part>, Viol> {
    let mut out = vec![];
    let mut rest = html;
    loop {
        let i = rest.find('<').unwrap_or(rest.len());
        let text = unescape(&rest[..i]).ok_or_else(|| Viol::new("page-markup", format!("text that is not escaped: {:?}", &rest[..i].chars().take(200).collect::<String>())))?;
        out.push(Part::Text(text));
        if i == rest.len() {
            return Ok(out);
        }
        // quoted values may have anything in them
        let mut quote = None;
        let Some(e) = rest[i..].find(|c| match quote {
            Some(q) => {
                if c == q {
                    quote = None;
                }
                false
            }
            None => {
                if c == '"' || c == '\'' {
                    quote = Some(c);
                }
                c == '>'
            }
        }) else {
            return Err(Viol::new("page-markup", "a tag is not closed"));
        };
        let tag = &rest[i + 1..i + e];
        rest = &rest[i + e + 1..];
        for raw in ["style", "script"] {
            if tag.split(' ').next() == Some(raw) {
                let end = rest.find(&format!("</{}>", raw)).ok_or_else(|| Viol::new("page-markup", "a script is not closed"))?;
                rest = &rest[end..];
            }
        }
        out.push(Part::Tag(tag.to_string()));
    }
}

/// The attributes of a tag; its quotes and names have to be right.
fn attributes(tag: &str) -> Option<Vec<(String, String)>> {
    let mut out = vec![];
    let mut rest = tag.trim_end_matches('/').trim_start_matches(|c: char| !c.is_whitespace());
    loop {
        rest = rest.trim_start();
        if rest.is_empty() {
            return Some(out);
        }
        let end = rest.find(|c: char| !c.is_ascii_alphanumeric() && c != '-').unwrap_or(rest.len());
        if end == 0 {
            return None;
        }
        let name = rest[..end].to_string();
        rest = &rest[end..];
        let mut value = String::new();
        if let Some(v) = rest.strip_prefix('=') {
            let q = v.chars().next().filter(|c| "\"'".contains(*c))?;
            let to = v[1..].find(q)? + 1;
            value = unescape(&v[1..to])?;
            rest = &v[to + 1..];
        }
        if !rest.is_empty() && !rest.starts_with(char::is_whitespace) {
            return None;
        }
        out.push((name, value));
    }
}

/// The text has this path, not just one that begins like it.
fn names(text: &str, path: &str) -> bool {
    text.match_indices(path).any(|(i, _)| !text[i + path.len()..].starts_with(|c: char| c.is_alphanumeric()))
}
/// The page shows the findings of each log below its name, and names the logs that were not analysed.
fn c16_page(ctx: &mut Ctx) -> Verdict {
    let mut t = make(ctx);
    let Some((_, fates, root)) = run(ctx, &mut t, &strs(&["--report", "out/report.html"]))? else { return Ok(()) };
    let html = String::from_utf8_lossy(&read(ctx, "out/report.html").unwrap_or_default()).into_owned();
    let mut want: Vec<(String, Vec<Shown>)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut seen: Vec<HashSet<u64>> = vec![HashSet::new(); t.groups.len()];
    for (i, f) in t.target.iter().enumerate() {
        let g = &t.groups[f.group];
        if !t.matched(f.group) {
            errors.push(f.rel.clone());
            continue;
        }
        if broken(&f.data, g.json, &fates[i]) {
            errors.push(f.rel.clone());
        }
        let b = wanted(&t, i, &fates[i], &mut seen[f.group]);
        if !b.is_empty() {
            want.push((f.rel.clone(), b));
        }
    }
    ctx.nontrivial = !want.is_empty();
    // read the page
    let mut got: Vec<(String, Vec<Shown>)> = vec![];
    let mut listed: Vec<String> = vec![];
    let (mut heading, mut pre, mut item) = (false, false, false);
    // with the number of logs before it
    let mut links: Vec<(usize, String)> = vec![];
    for p in parts(&html)? {
        match p {
            Part::Tag(tag) => {
                let attrs = if tag.starts_with(['!', '/']) { Some(vec![]) } else { attributes(&tag) };
                let Some(attrs) = attrs else {
                    return Err(Viol::new("page-markup", format!("a tag with broken attributes: <{}>", tag)));
                };
                for (n, v) in attrs {
                    ensure!(!n.starts_with("on"), "page-markup", "a tag with a handler: <{}>", tag);
                    if n == "href" && tag.starts_with("a ") {
                        links.push((got.len(), v));
                    }
                }
                heading = tag.contains("list-group-item-heading");
                pre = tag.split(' ').next() == Some("pre");
                item = tag == "li";
            }
            Part::Text(s) => {
                if heading {
                    got.push((s.trim().trim_start_matches('/').to_string(), vec![]));
                } else if pre {
                    // the page is indented; no line here ends with a space
                    let s = s.trim_end().trim_start_matches('\n');
                    let l = parse(s).ok_or_else(|| Viol::new("page-line", format!("a line on the page is {:?}", s)))?;
                    ensure!(!got.is_empty(), "page-line", "lines are shown before any log is named");
                    got.last_mut().unwrap().1.push(l);
                } else if item && !s.trim().is_empty() {
                    listed.push(s);
                }
                heading = false;
                pre = false;
                item = false;
            }
        }
    }
    for (rel, b) in &want {
        let mut logs = got.iter().filter(|g| g.0 == *rel);
        match logs.next() {
            None => return Err(Viol::new("log-not-shown", format!("the page does not show {}; it shows {:?}", rel, got.iter().map(|g| &g.0).collect::<Vec<_>>()))),
            Some((_, lines)) => compare(lines, b, rel)?,
        }
        ensure!(logs.next().is_none(), "log-twice", "the page shows {} twice", rel);
    }
    for (rel, _) in &got {
        ensure!(want.iter().any(|x| x.0 == *rel), "log-invented", "the page shows {:?} without reason", rel);
    }
    for (n, v) in links.iter().filter(|l| l.0 > 0 && !l.1.starts_with('#')) {
        let own = format!("{}{}", root, got[n - 1].0);
        let base = t.base.iter().any(|b| v.ends_with(&format!("/{}", b.rel)));
        ensure!(*v == own || base, "wrong-link", "below {} is a link to {:?}", got[n - 1].0, v);
    }
    for (n, g) in got.iter().enumerate() {
        let own = format!("{}{}", root, g.0);
        ensure!(links.iter().any(|l| l.0 == n + 1 && l.1 == own), "no-link", "{} has no link to it", g.0);
    }
    for e in &errors {
        let n = listed.iter().filter(|l| names(l, &format!("{}{}", root, e))).count();
        ensure!(n == 1, "error-not-shown", "{} was not analysed completely, the page says so {} times", e, n);
    }
    ensure!(errors.len() == listed.iter().filter(|l| l.contains(root)).count(), "error-invented", "the page lists logs as not analysed: {:?}, expected {:?}", listed, errors);
    for (rel, b) in &want {
        guessed(got.iter().filter(|g| g.0 == *rel).flat_map(|g| g.1.iter()), b.iter())?;
    }
    Ok(())
}

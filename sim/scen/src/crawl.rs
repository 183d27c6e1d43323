//! C09 and C10: crawling remote directory indexes.
use crate::gen::word;
use crate::lines::ended;
use crate::web::page;
use crate::wire::{R, W};
use simcore::*;
use std::collections::BTreeMap;
use url::Url;

pub const C09: Property = Property {
    id: "C09",
    scenarios: &[(Scenario { name: "list", run: c09_list }, 1), (Scenario { name: "walk", run: c09_walk }, 2), (Scenario { name: "again", run: c09_again }, 1)],
    quick_runs: 50_000,
    thorough_runs: 1_500_000,
    rule: "a run counts when the tree has at least two pages and one file; distinct by tree, answer timing and thread schedule",
    real: "httpdir (Crawler, CrawlerIter), threadpool, std mpsc channels, reqwest, hyper and tokio with real threads under the simulated scheduler",
    stub: "sockets, name resolution, the web server, futexes, clock and randomness",
    assumptions: &["links start with a letter or digit and have at least two characters, as the crawler's notion of an index demands", "the tree is finite"],
};
pub const C10: Property = Property {
    id: "C10",
    scenarios: &[(Scenario { name: "list", run: c10_list }, 1), (Scenario { name: "walk", run: c10_walk }, 1), (Scenario { name: "again", run: c10_again }, 1)],
    quick_runs: 60_000,
    thorough_runs: 1_500_000,
    rule: "a run counts when at least one harmful network fault was injected; distinct by tree, faults and thread schedule",
    real: "httpdir (Crawler, CrawlerIter), threadpool, std mpsc channels, reqwest, hyper and tokio with real threads under the simulated scheduler",
    stub: "sockets, name resolution, the web server, futexes, clock and randomness",
    assumptions: &["bounded time means 35 simulated seconds per page (the client's own time limit is 30 seconds per request) plus a minute"],
};

const HOST: &str = "logs.sim";
pub const NET_FAULTS: &[u32] =
    &[CONN_REFUSED, CONN_TIMEOUT, RESET_EARLY, RESET_MID, TRUNC, STALL_HEAD, STALL_MID, HTTP_5XX, HTTP_4XX, HTTP_BUSY, GARBAGE, BAD_GZIP, DNS_FAIL];

struct Tree {
    pages: BTreeMap<String, String>,
    /// the files and directories each page links
    own: BTreeMap<String, (Vec<String>, Vec<String>)>,
    files: Vec<String>,
    root: Url,
    /// where directories have moved to
    moved: BTreeMap<String, String>,
    budget: u64,
}

fn grow(w: &mut Choices, r: &mut Rng, t: &mut Tree, dir: &str, depth: u32) -> Vec<String> {
    let mut files = Vec::new();
    let mut links = Vec::new();
    let mut subs = Vec::new();
    let mut nested = Vec::new();
    let mut used: Vec<String> = Vec::new();
    let n = if depth == 0 { 1 + w.below(6) } else { w.below(6) };
    for _ in 0..n {
        let name = loop {
            let n = word(r);
            if !used.contains(&n) {
                used.push(n.clone());
                break n;
            }
        };
        match w.weighted(&[10, if depth < 4 { 7 } else { 0 }, 2, 1, 1, 1, 2]) {
            1 => {
                let mut sub = format!("{}{}/", dir, name);
                let l = match w.below(5) {
                    0 => sub.clone(),
                    1 => format!("http://{}{}", HOST, sub),
                    2 => format!("{}/index.html", name),
                    _ => format!("{}/", name),
                };
                let other = format!("x{}", &name[1..]);
                if !used.contains(&other) && w.chance(1, 10) {
                    // the link is answered with a redirection
                    let to = format!("{}{}/", dir, other);
                    used.push(other);
                    t.moved.insert(sub, to.clone());
                    sub = to;
                }
                let mut below = grow(w, r, t, &sub, depth + 1);
                if t.budget == 0 && w.chance(1, 60) {
                    // a chain of directories
                    t.budget = 1;
                    let mut deep = sub.clone();
                    let mut chain = vec![];
                    for i in 0..5 + w.below(12) {
                        chain.push(deep.clone());
                        deep = format!("{}{}{}/", deep, i % 3, word(r));
                    }
                    let f = format!("http://{}{}last.log", HOST, deep);
                    t.pages.insert(deep.clone(), page("", &["<a href=\"last.log\">x</a>".to_string()]));
                    t.own.insert(deep.clone(), (vec![f.clone()], vec![]));
                    while let Some(d) = chain.pop() {
                        let n = &deep[d.len()..];
                        if d == sub {
                            // a link more on the page there is
                            let p = t.pages.get_mut(&d).unwrap();
                            *p = p.replace("</body>", &format!("<a href=\"{}\">x</a></body>", n));
                            t.own.get_mut(&d).unwrap().1.push(deep.clone());
                        } else {
                            t.pages.insert(d.clone(), page("", &[format!("<a href=\"{}\">x</a>", n)]));
                            t.own.insert(d.clone(), (vec![], vec![deep.clone()]));
                        }
                        deep = d;
                    }
                    below.push(f);
                }
                links.push(l.clone());
                nested.extend(below.clone());
                subs.push(sub.clone());
                if w.chance(1, 12) {
                    // linked twice
                    links.push(l);
                    nested.extend(below);
                    subs.push(sub);
                }
            }
            2 => {
                // many files
                let most = if w.chance(1, 25) { 900 } else { 30 };
                for i in 0..w.below(most) {
                    let f = format!("{}-{}.log", name, i);
                    files.push(format!("http://{}{}{}", HOST, dir, f));
                    links.push(f);
                }
            }
            3 => links.push("etc/".into()),
            4 => {
                // the directory itself and its parent
                links.push("index.html".into());
                links.push(dir.into());
            }
            6 => {
                // names that look like something else
                if w.chance(1, 8) {
                    // a file somewhere else
                    files.push(format!("http://{}/{}", HOST, name));
                    links.push(format!("/{}", name));
                    continue;
                }
                let f = match w.below(12) {
                    0 => format!("{}-index.html", name),
                    1 => format!("{}index.html", name),
                    2 => format!("{}.html", name),
                    3 => format!("etc-{}", name),
                    4 => format!("{}-etc", name),
                    5 => format!("{}.tar.gz", name),
                    6 => format!("index-{}.log", name),
                    7 => format!("0{}.0.1", name),
                    8 => format!("{}?a=b/", name),
                    9 => format!("{}:x", name),
                    10 => format!("{}+~@({})", name, name),
                    _ => format!("{}.index.html.gz", name),
                };
                if f.contains(':') {
                    // relative links with a colon are urls of their own
                    files.push(format!("http://{}{}{}", HOST, dir, f));
                    links.push(format!("{}{}", dir, f));
                } else {
                    files.push(format!("http://{}{}{}", HOST, dir, f));
                    links.push(f);
                }
            }
            5 => {
                // a name in need of encoding
                let f = format!("{}%20log%C3%A9.txt", name);
                files.push(format!("http://{}{}{}", HOST, dir, f));
                // (some servers do not encode it)
                links.push(if w.chance(1, 2) { format!("{} log\u{e9}.txt", name) } else { f });
            }
            _ => {
                let f = format!("{}{}", name, *w.pick(&[".log", ".txt.gz", "", ".json"]));
                let u = format!("http://{}{}{}", HOST, dir, f);
                links.push(match w.below(6) {
                    0 => u.clone(),
                    1 => format!("{}{}", dir, f),
                    _ => f,
                });
                files.push(u);
            }
        }
    }
    r.shuffle(&mut links);
    let links: Vec<String> = links.iter().map(|l| format!("<td><a href=\"{}\">x</a></td>", l)).collect();
    let parent = dir.trim_end_matches('/').rsplit_once('/').map(|x| x.0).unwrap_or("");
    t.pages.insert(dir.to_string(), page(parent, &links));
    t.own.insert(dir.to_string(), (files.clone(), subs));
    files.extend(nested);
    files
}
fn site(w: &mut Choices) -> Tree {
    let mut r = w.bulk();
    let dir = *w.pick(&["/logs/", "/", "/a/logs/of/42/", "/logs/build-1/", "/etc/logs/"]);
    let mut root = dir.to_string();
    let mut moved = BTreeMap::new();
    if dir != "/" && w.chance(1, 10) {
        root.replace_range(1..2, "x");
        moved.insert(root.clone(), dir.to_string());
    }
    let mut t = Tree { pages: BTreeMap::new(), own: BTreeMap::new(), files: vec![], root: Url::parse(&format!("http://{}{}", HOST, root)).unwrap(), moved, budget: 0 };
    t.files = grow(w, &mut r, &mut t, dir, 0);
    if dir != "/" && t.moved.get(&root).is_none() && w.chance(1, 10) {
        // a page that is not a directory; its relative links mean the same
        let root = format!("{}{}", dir, w.pick(&["list", "l", "all.php", "index.html", "index-of-all-the-logs.html"]));
        t.pages.insert(root.clone(), t.pages[dir].clone());
        t.own.insert(root.clone(), t.own[dir].clone());
        t.root.set_path(&root);
    }
    t.files.sort();
    t
}
impl Tree {
    fn net(&self) -> Net {
        let pages = self.pages.clone();
        let moved = self.moved.clone();
        Net::new(
            &[HOST],
            Box::new(move |q| match pages.get(&q.path) {
                Some(p) => Resp::ok(p.as_bytes()),
                None => match moved.get(&q.path) {
                    Some(to) => {
                        let mut r = Resp::status(301, "<html><body><a href=\"/elsewhere.log\">moved</a></body></html>");
                        r.headers.push(("Location".into(), to.clone()));
                        r
                    }
                    None => Resp::status(404, "gone"),
                },
            }),
        )
    }
}

type Res = Result<url::Url, std::io::Error>;
fn put(out: &mut W, items: Vec<Res>) {
    out.n(items.len() as u64);
    for i in items {
        match i {
            Ok(u) => out.n(1).s(u.as_str()),
            Err(e) => out.n(0).s(&e.to_string()),
        };
    }
}
/// Found files, sorted, and errors.
fn get(r: &mut R) -> (Vec<String>, Vec<String>) {
    let (mut f, mut e) = (vec![], vec![]);
    for _ in 0..r.n() {
        if r.n() == 1 {
            f.push(r.s());
        } else {
            e.push(r.s());
        }
    }
    f.sort();
    (f, e)
}
fn list(c: &httpdir::Crawler, u: Url) -> Vec<Res> {
    match c.list(u) {
        Ok(v) => v.into_iter().map(Ok).collect(),
        Err(e) => vec![Err(e)],
    }
}
/// At most this many items are taken from an iterator.
const MANY: usize = 20_000;

fn complete(got: &(Vec<String>, Vec<String>), t: &Tree, what: &str) -> Verdict {
    ensure!(got.1.is_empty(), "error", "{} without faults reported {:?}", what, got.1);
    missing(&got.0, &t.files, what)
}
fn missing(got: &[String], want: &[String], what: &str) -> Verdict {
    if got == want {
        return Ok(());
    }
    let lost: Vec<_> = want.iter().filter(|f| count(want, f) > count(got, f)).take(3).collect();
    ensure!(lost.is_empty(), "files-lost", "{} found {} of {} files, lost for instance {:?}", what, got.len(), want.len(), lost);
    invented(got, want, what)
}
fn invented(got: &[String], want: &[String], what: &str) -> Verdict {
    let more: Vec<_> = got.iter().filter(|f| count(got, f) > count(want, f)).take(3).collect();
    ensure!(more.is_empty(), "files-invented", "{} found {} files, expected {}, too often for instance {:?}", what, got.len(), want.len(), more);
    Ok(())
}
fn count(v: &[String], x: &String) -> usize {
    v.iter().filter(|y| *y == x).count()
}
fn cfg(ctx: &mut Ctx, t: &Tree) -> PhaseCfg {
    let mut c = PhaseCfg::default();
    c.spurious = ctx.w.chance(1, 6);
    c.cap_vtime_s = 60 + 35 * t.pages.len() as u64 * 2;
    ctx.nontrivial = t.pages.len() > 1 && !t.files.is_empty();
    ctx.case = format!("{} pages, {} files", t.pages.len(), t.files.len());
    if ctx.verbose {
        for (u, p) in &t.pages {
            eprintln!("{}: {}", u, p.split("\n").filter(|l| l.contains("href")).skip(2).collect::<Vec<_>>().join(" "));
        }
    }
    c
}

fn c09_list(ctx: &mut Ctx) -> Verdict {
    let t = site(&mut ctx.w);
    let c = cfg(ctx, &t);
    let u = t.root.clone();
    let o = ctx.phase(
        "list",
        c,
        t.net(),
        Box::new(move || {
            let mut out = W::default();
            put(&mut out, list(&httpdir::Crawler::new(), u));
            out.0
        }),
    );
    ended(&o)?;
    complete(&get(&mut R(&o.result)), &t, "listing")
}
fn c09_walk(ctx: &mut Ctx) -> Verdict {
    let t = site(&mut ctx.w);
    let c = cfg(ctx, &t);
    let slow = ctx.w.below(3);
    let u = t.root.clone();
    let o = ctx.phase("walk", c, t.net(), Box::new(move || walk(u, slow)));
    ended(&o)?;
    complete(&get(&mut R(&o.result)), &t, "walking")
}
fn walk(u: Url, slow: u64) -> Vec<u8> {
    let mut out = W::default();
    let mut it = httpdir::Crawler::new().walk(u);
    let mut items = Vec::new();
    while let Some(i) = it.next() {
        items.push(i);
        if items.len() > MANY {
            break;
        }
        if slow > 0 {
            std::thread::sleep(std::time::Duration::from_millis(slow * 7));
        }
    }
    put(&mut out, items);
    out.0
}
/// One crawler, several trees.
fn c09_again(ctx: &mut Ctx) -> Verdict {
    let t = site(&mut ctx.w);
    let c = cfg(ctx, &t);
    let u = t.root.clone();
    let o = ctx.phase(
        "list twice and walk",
        c,
        t.net(),
        Box::new(move || {
            let c = httpdir::Crawler::default();
            let mut out = W::default();
            put(&mut out, list(&c, u.clone()));
            put(&mut out, list(&c, u.clone()));
            put(&mut out, c.walk(u).take(MANY).collect());
            out.0
        }),
    );
    ended(&o)?;
    let mut r = R(&o.result);
    complete(&get(&mut r), &t, "first listing")?;
    complete(&get(&mut r), &t, "second listing")?;
    complete(&get(&mut r), &t, "walking after listing")
}

fn faulty(ctx: &mut Ctx, t: &Tree) -> PhaseCfg {
    let c = cfg(ctx, t);
    if ctx.w.chance(1, 30) {
        // it never works
        let k = ctx.w.below(NET_FAULTS.len() as u64) as usize;
        return c.fault(FaultPlan { rate: 1, single_at: None, max: 100_000 }).net_faults(&NET_FAULTS[k..k + 1]);
    }
    let p = match ctx.w.below(3) {
        0 => FaultPlan { rate: 0, single_at: Some(log_uniform(&mut ctx.w, 2 * t.pages.len() as u64)), max: 1 },
        1 => FaultPlan { rate: 3, single_at: None, max: 3 },
        _ => FaultPlan { rate: 6, single_at: None, max: 20 },
    };
    c.fault(p).net_faults(NET_FAULTS)
}
/// Complete, or an error that has a cause.
fn honest(ctx: &mut Ctx, o: &Out, got: &(Vec<String>, Vec<String>), t: &Tree, what: &str) -> Verdict {
    ctx.nontrivial = !o.harmful().is_empty();
    if got.1.is_empty() {
        missing(&got.0, &t.files, &format!("{} claims success under {}, but", what, causes(o)))?;
    } else {
        ensure!(!o.harmful().is_empty(), "error", "{} without faults reported {:?}", what, got.1);
        invented(&got.0, &t.files, what)?;
    }
    Ok(())
}
fn causes(o: &Out) -> String {
    o.harmful().iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).take(4).collect::<Vec<_>>().join(", ")
}
impl Tree {
    /// The files linked on pages that did not fail.
    fn reachable(&self, dir: &str, o: &Out, out: &mut Vec<String>) {
        let url = format!("GET http://{}{}", HOST, dir);
        let from: Vec<String> = self.moved.iter().filter(|m| m.1 == dir).map(|m| format!("GET http://{}{}", HOST, m.0)).collect();
        if o.harmful().iter().any(|f| f.what == url || from.contains(&f.what)) {
            return;
        }
        let (files, subs) = &self.own[dir];
        out.extend(files.iter().cloned());
        for s in subs {
            self.reachable(s, o, out);
        }
    }
}
fn c10_list(ctx: &mut Ctx) -> Verdict {
    let t = site(&mut ctx.w);
    let c = faulty(ctx, &t);
    let u = t.root.clone();
    let o = ctx.phase(
        "list",
        c,
        t.net(),
        Box::new(move || {
            let mut out = W::default();
            put(&mut out, list(&httpdir::Crawler::new(), u));
            out.0
        }),
    );
    ended(&o)?;
    let got = get(&mut R(&o.result));
    honest(ctx, &o, &got, &t, "listing")
}
fn c10_walk(ctx: &mut Ctx) -> Verdict {
    let t = site(&mut ctx.w);
    let c = faulty(ctx, &t);
    let u = t.root.clone();
    let slow = ctx.w.below(2);
    let o = ctx.phase("walk", c, t.net(), Box::new(move || walk(u, slow)));
    ended(&o)?;
    let got = get(&mut R(&o.result));
    ctx.nontrivial = !o.harmful().is_empty();
    honest(ctx, &o, &got, &t, "walking")?;
    if o.harmful().iter().all(|f| f.what.starts_with("GET ")) {
        let mut want = Vec::new();
        let top = t.moved.get(t.root.path()).map(|s| s.as_str()).unwrap_or(t.root.path());
        t.reachable(top, &o, &mut want);
        let lost: Vec<_> = want.iter().filter(|f| count(&want, f) > count(&got.0, f)).take(3).collect();
        ensure!(lost.is_empty(), "files-lost", "walking under {} lost files of other pages: {:?}", causes(&o), lost);
    }
    Ok(())
}
fn c10_again(ctx: &mut Ctx) -> Verdict {
    let t = site(&mut ctx.w);
    let c = faulty(ctx, &t);
    let u = t.root.clone();
    let o = ctx.phase(
        "list under faults, then without",
        c,
        t.net(),
        Box::new(move || {
            let c = httpdir::Crawler::new();
            let mut out = W::default();
            put(&mut out, list(&c, u.clone()));
            faults_end();
            put(&mut out, list(&c, u.clone()));
            put(&mut out, c.walk(u).take(MANY).collect());
            out.0
        }),
    );
    ended(&o)?;
    let mut r = R(&o.result);
    let got = get(&mut r);
    honest(ctx, &o, &got, &t, "listing")?;
    complete(&get(&mut r), &t, "listing after the faults")?;
    complete(&get(&mut r), &t, "walking after the faults")
}

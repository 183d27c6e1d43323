//! C15: whatever it is given, the program ends with a result or an error.
use crate::cli::{program, Prog};
use crate::crawl::NET_FAULTS;
use crate::gen::word;
use crate::web::{page, Site};
use simcore::*;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::rc::Rc;

pub const C15: Property = Property {
    id: "C15",
    scenarios: &[
        (Scenario { name: "files", run: c15_files }, 3),
        (Scenario { name: "arguments", run: c15_args }, 2),
        (Scenario { name: "server", run: c15_server }, 2),
        (Scenario { name: "api", run: c15_api }, 2),
    ],
    quick_runs: 28_000,
    thorough_runs: 300_000,
    rule: "a run counts when it had odd names, content, arguments or answers, or at least one fault; distinct by input, faults and schedule",
    real: "the whole program: logreduce-cli with everything below it down to libc",
    stub: "the file system below the system call interface, sockets and the web servers, standard output and error, futexes, clock and randomness",
    assumptions: &[
        "sites and answers are finite and a path of a link chain does not grow forever",
        "standard output can be written",
        "the journald and current-build commands, which say that they are not implemented, are left out",
        "a home directory exists",
    ],
};

/// A result or an error, in bounded time, and no panic in any thread.
pub fn survives(o: &Out) -> Verdict {
    match &o.end {
        End::Done | End::Exit(_) | End::Crash if o.npanics == 0 => Ok(()),
        End::Done | End::Exit(_) | End::Crash | End::Panic => Err(Viol::new("panic", format!("the program panicked: {}", o.describe_end()))),
        End::Hang => Err(Viol::new("hang", "no end within the step and time bound")),
        End::Deadlock => Err(Viol::new("deadlock", "all threads wait for each other")),
        End::Signal(s) => Err(Viol::new("signal", format!("ended by signal {} {}", s, o.panics))),
        End::Harness(s) => Err(Viol::new("harness", s.clone())),
    }
}

pub fn token(r: &mut Rng) -> Vec<u8> {
    let t: &[&str] = &[
        "2022-01-02T03:04:05.678Z", "Mon", "Jan", "10:11:12", "0x7ffdeadbeef", "127.0.0.1", "::1", "fe80::1/64", "a498f74a-b32b-49ff-a9c9-e7463fbf8885", "015da2b", "SHA256:q1w2e3r4t5y6u7i8o9p0asdfghjklzxcvbnm1234567",
        "password=hunter2", "http://", "https://x", "/var/lib/[x]", "\\n", "\\", "\\\\n", "\"", "'", "{\"a\": [1,2,{\"b\":null}]}", "[[[[", "]]]]", "{", "}", ",", "=", "==", ":", ";", "|", "%", "%ID", "%GL_FILTER", "TASK [log-classify", "é", "ß", "日本語", "\u{1F4A5}", "\u{200b}", "\u{0}", "\t", "\r", "-", "--", "_", "__", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "İ", "ŉ", "9999999999999999999999", "-0", "1e309", "0.0.0.0.0", "k8s_x-y", "MAC 00:11:22:33:44:55", "GET", "tmp/ansible.abc123", "Node", "b'", "u'", "ssh-rsa AAAAB3NzaC1yc2E=", "<script>", "</pre>", "&amp;", "\u{feff}", "\u{202e}",
    ];
    match r.below(12) {
        0 => (0..1 + r.below(30)).map(|_| r.next() as u8).filter(|b| *b != b'\n').collect(),
        1 => word(r).into_bytes(),
        2 => format!("{}", r.next()).into_bytes(),
        3 => (0..r.below(70)).map(|_| b"0123456789abcdefABCDEFxyz+/=-_:."[r.below(32) as usize]).collect(),
        4 => (0..r.below(12)).map(|_| (33 + r.below(94)) as u8).collect(),
        _ => r.pick(t).as_bytes().to_vec(),
    }
}
pub fn soup(r: &mut Rng, text: bool) -> Vec<u8> {
    let mut d = Vec::new();
    let lines = match r.below(10) {
        0 => 0,
        1 => 400 + r.below(500),
        _ => 1 + r.below(12),
    };
    for _ in 0..lines {
        let n = match r.below(20) {
            0 => 200 + r.below(1500),
            1 => 0,
            _ => 1 + r.below(10),
        };
        for _ in 0..n {
            d.extend(token(r));
            if r.chance(1, 60) {
                // one long word
                let (a, b) = (token(r), if r.chance(1, 2) { token(r) } else { vec![] });
                let n = match r.below(10) {
                    0 => r.below(20_000),
                    1 => r.below(2_000),
                    _ => r.below(150),
                };
                for _ in 0..n {
                    d.extend_from_slice(&a);
                    d.extend_from_slice(&b);
                }
            }
            if r.chance(3, 4) {
                d.push(b' ');
            }
        }
        if !r.chance(1, 20) {
            d.push(b'\n');
        }
        if r.chance(1, 300) {
            // the same line again and again
            let l = [token(r), token(r), b"\n".to_vec()].concat();
            d.push(b'\n');
            for _ in 0..r.below(9_000) {
                d.extend_from_slice(&l);
            }
        }
    }
    if text {
        d = String::from_utf8_lossy(&d).into_owned().into_bytes();
    }
    d
}
/// A file name, not necessarily text.
fn name(r: &mut Rng) -> Vec<u8> {
    let exts: &[&str] = &[".log", ".txt", ".json", ".gz", ".log.gz", "", ".", ".log.1", ".0", ".html", ".json.gz", ".tar"];
    let mut n: Vec<u8> = match r.below(10) {
        0 => (0..1 + r.below(8)).map(|_| 128 + r.below(128) as u8).collect(),
        1 => "é".repeat(1 + r.below(100) as usize).into_bytes(),
        2 => vec![b'a'; 200],
        3 => b"httpd".to_vec(),
        4 => b"http:".to_vec(),
        5 => format!("k8s_{}-x", word(r)).into_bytes(),
        6 => token(r),
        _ => word(r).into_bytes(),
    };
    n.extend(r.pick(exts).as_bytes());
    n.retain(|b| *b != b'/' && *b != 0);
    n.truncate(250);
    if n.is_empty() || n == b"." || n == b".." {
        n = b"x.log".to_vec();
    }
    n
}
pub fn gz(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn odd_tree(ctx: &mut Ctx, root: &str, r: &mut Rng, same: &[(Vec<u8>, Vec<u8>)]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut made = Vec::new();
    let base = ctx.path(root);
    std::fs::create_dir_all(&base).unwrap();
    let n = 1 + ctx.w.below(5);
    for _ in 0..n {
        let mut dir = base.clone();
        for _ in 0..r.below(3) {
            dir.push(OsStr::from_bytes(&name(r)));
        }
        if std::fs::create_dir_all(&dir).is_err() {
            continue;
        }
        let nm = if !same.is_empty() && r.chance(1, 2) { r.pick(same).0.clone() } else { name(r) };
        let p = dir.join(OsStr::from_bytes(&nm));
        let text = r.chance(2, 3);
        let mut d = if !same.is_empty() && r.chance(1, 3) { r.pick(same).1.clone() } else { soup(r, text) };
        if nm.ends_with(b".gz") && r.chance(3, 4) {
            let mut z = gz(&d);
            if r.chance(1, 2) {
                let at = r.below(z.len() as u64) as usize;
                if r.chance(1, 2) {
                    z.truncate(at);
                } else {
                    z[at] ^= 1 << r.below(8);
                }
            }
            d = z;
        }
        if std::fs::write(&p, &d).is_ok() {
            made.push((nm, d));
        }
    }
    if r.chance(1, 6) {
        let _ = std::os::unix::fs::symlink(".", base.join("loop.log"));
        let _ = std::os::unix::fs::symlink("nowhere", base.join("dangling.log"));
    }
    made
}
fn opts(w: &mut Choices, a: &mut Vec<String>) {
    if w.chance(1, 2) {
        a.extend(["--report".to_string(), "out/report.html".to_string()]);
    }
    if w.chance(1, 4) {
        a.extend(["--model".to_string(), "out/model.bin".to_string()]);
    }
}
fn environment(w: &mut Choices) -> PhaseCfg {
    let mut c = PhaseCfg::default();
    c.ncpu = *w.pick(&[1usize, 1, 2]);
    c.tty = w.chance(1, 4);
    c.rlimit_as = Some(6 << 30);
    c.cap_edges = 1_500_000_000;
    if w.chance(1, 6) {
        c.env.push(("LOGREDUCE_LOG".into(), w.pick(&["debug", "trace", "nonsense"]).to_string()));
    }
    if w.chance(1, 4) {
        c.env.push(("LOGREDUCE_CACHE".into(), "1".into()));
    }
    c.env.push(("XDG_CACHE_HOME".into(), "@SCRATCH@/cache".into()));
    if w.chance(1, 3) {
        let k: &[u32] = &[READ_EIO, READ_SHORT, READ_EINTR, OPEN_EACCES, OPEN_EMFILE, OPEN_EIO, OPEN_ENOENT, DIR_ERR, WRITE_ENOSPC, WRITE_EIO, WRITE_SHORT, WRITE_EINTR, DISK_FULL, RENAME_ERR, UNLINK_ERR, MKDIR_ERR];
        let p = fault_plan(w);
        c = c.fault(p).scope("", k).net_faults(NET_FAULTS);
    }
    c
}
fn finish(ctx: &mut Ctx, args: Vec<String>, net: Net, what: String) -> Verdict {
    let cfg = environment(&mut ctx.w);
    let o = program(ctx, "program", Prog::Logreduce, &args, cfg, net);
    ctx.nontrivial = true;
    ctx.case = format!("{:?}; {}; {}", args, what, o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    survives(&o)
}

fn c15_files(ctx: &mut Ctx) -> Verdict {
    let mut r = ctx.w.bulk();
    let base = odd_tree(ctx, "base", &mut r, &[]);
    let target = odd_tree(ctx, "target", &mut r, &base);
    ctx.write("out/.keep", b"");
    let w = &mut ctx.w;
    let mut a = vec![];
    opts(w, &mut a);
    match w.below(6) {
        0 => a.extend(["train".into(), "base".into()]),
        1 => a.extend(["debug-groups".into(), "target".into()]),
        2 => {
            // a plain file with its rotated version
            let d = soup(&mut r, true);
            let e = soup(&mut r, true);
            ctx.write("httpd.log", &d);
            ctx.write("httpd.log.0", &e);
            if ctx.w.chance(1, 2) {
                a.extend(["path".into(), "httpd.log".into()]);
            } else {
                a.extend(["diff".into(), "httpd.log.0".into(), "httpd.log".into()]);
            }
        }
        3 => {
            let d = soup(&mut r, false);
            ctx.write("one.json", &d);
            a.extend([ctx.w.pick(&["debug-iterator", "debug-groups", "path"]).to_string(), "one.json".into()]);
        }
        _ => a.extend(["diff".into(), "base".into(), "target".into()]),
    }
    finish(ctx, a, Net::default(), format!("{} and {} odd files, {:x}", base.len(), target.len(), mix(r.next(), 0)))
}

fn c15_args(ctx: &mut Ctx) -> Verdict {
    ctx.write("base/some.log", b"a known line of the baseline\n");
    ctx.write("target/some.log", b"something completely different here\n");
    ctx.write("some.log", b"something completely different here\n");
    ctx.write("some.log.0", b"a known line of the baseline\n");
    ctx.write("httpd.log", b"something completely different here\n");
    ctx.write("out/bad.bin", b"not a model\n");
    ctx.write("ds/a.good", b"a known line\n");
    ctx.write("ds/a.fail", b"a known line\nsomething completely different here\n");
    ctx.write("ds/inf.yaml", b"anomalies:\n- line: something completely different\n");
    ctx.write("ds2/inf.yaml", b"anomalies: []\n");
    ctx.write("ds3/inf.yaml", b"{{{");
    ctx.write("empty/.keep", b"");
    let mut r = ctx.w.bulk();
    let w = &mut ctx.w;
    let cmd = w.pick(&["diff", "diff", "path", "url", "train", "test", "debug-groups", "debug-tokenizer", "debug-iterator", "debug-indexname", "--help", "--version", "nothing"]).to_string();
    let mut a = vec![];
    if w.chance(1, 3) {
        a.extend(["--model".to_string(), w.pick(&["out/m", "out/bad.bin", "out", "missing/dir/m", "", "/dev/null"]).to_string()]);
    }
    if w.chance(1, 3) {
        a.extend(["--report".to_string(), w.pick(&["out/r.html", "out", "missing/dir/r", "", "out/r", ".."]).to_string()]);
    }
    a.push(cmd);
    for _ in 0..w.below(4) {
        let v: String = match w.below(6) {
            0 => String::from_utf8_lossy(&token(&mut r)).replace('\0', ""),
            1 => w
                .pick(&[
                    "http://", "http:", "https://[", "http://[::1", "http:///x", "http://logs.sim:99999/", "http://logs.sim/x/", "http://logs.sim/one.log", "https://logs.sim/x/", "http://nowhere.sim/", "httpd.log", "http", "https", "http://a b/", "http://logs.sim/t/x/build/a498f74ab32b49ffa9c9e7463fbf8885",
                    "http://logs.sim/build/a498f74ab32b49ffa9c9e7463fbf8885", "http:build/a498f74ab32b49ffa9c9e7463fbf8885", "http:/t/x/build/a498f74ab32b49ffa9c9e7463fbf8885", "http://%00/", "httpx://logs.sim/", "http://logs.sim/%ff/", "http://user:pw@logs.sim/", "http+unix:x",
                ])
                .to_string(),
            2 => w.pick(&["missing", "", ".", "..", "/", "-", "--", "-x", "--model", "empty", "/dev/null", "target/../target", "some.log/x"]).to_string(),
            3 => w.pick(&["ds", "ds2", "ds3"]).to_string(),
            _ => w.pick(&["base", "target", "some.log", "some.log.0", "httpd.log"]).to_string(),
        };
        // a walk over the real root is not wanted
        a.push(if v.starts_with('/') && v != "/dev/null" || v.contains("..") { "target".into() } else { v });
    }
    let mut site = Site::default();
    site.put("/x/some.log", b"a known line of the baseline\n");
    site.put("/one.log", b"something completely different here\n");
    let site = Rc::new(site);
    finish(ctx, a, site.net("logs.sim"), String::new())
}

fn link(r: &mut Rng, dirs: &[&str]) -> String {
    match r.below(14) {
        0 => format!("http://logs.sim/{}/", r.pick(dirs)),
        1 => format!("http://other.sim/{}.log", word(r)),
        2 => format!("//logs.sim/{}/", r.pick(dirs)),
        3 => r.pick(&["mailto:admin@logs.sim", "javascript:void(0)/", "data:text/html,x/", "http://", "http://[/", "ftp://logs.sim/x/", "file:///x/", "https:", "a:b/index.html", "http://logs.sim:99999/x/", "x:/index.html"]).to_string(),
        4 => format!("/{}/", r.pick(dirs)),
        5 => format!("{}/index.html", r.pick(dirs)),
        6 => String::from_utf8_lossy(&token(r)).into_owned(),
        7 => format!("{}.log?x={}#y", word(r), word(r)),
        8 => "%2e%2e/%2e%2e/".into(),
        9 => "\\\\logs.sim\\d0\\".into(),
        10 => format!("{}.log.gz", word(r)),
        _ => format!("{}.log", word(r)),
    }
}
fn c15_server(ctx: &mut Ctx) -> Verdict {
    let mut r = ctx.w.bulk();
    let w = &mut ctx.w;
    let dirs: &[&str] = &["d0", "d1", "d1/e", "d2", "d2/é", "logs", "logs/base"];
    let mut pages: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
    for d in dirs.iter().chain(&["logs/target"]) {
        let n = r.below(5);
        let links: Vec<String> = (0..n).map(|_| format!("<tr><td><a href=\"{}\">x</a></td></tr>", link(&mut r, dirs))).collect();
        let mut p = page("", &links).into_bytes();
        match r.below(8) {
            0 => p = soup(&mut r, false),
            1 => p.truncate(r.below(p.len() as u64 + 1) as usize),
            _ => {}
        }
        pages.insert(format!("/{}/", d.replace('é', "%C3%A9")), p);
    }
    let seed = w.below(1 << 32);
    let odd = *w.pick(&[0u64, 2, 6]);
    let mut a = vec![];
    opts(w, &mut a);
    match w.below(5) {
        0 => a.extend(["diff".into(), "http://logs.sim/logs/base/".into(), "http://logs.sim/d0/one.log".into()]),
        1 => a.extend(["url".into(), "http://logs.sim/logs/target/".into()]),
        2 => a.extend(["debug-groups".into(), "http://logs.sim/logs/target/".into()]),
        3 => a.extend(["diff".into(), "base".into(), "http://logs.sim/logs/target/".into()]),
        _ => a.extend(["diff".into(), "http://logs.sim/logs/base/".into(), "http://logs.sim/logs/target/".into()]),
    }
    ctx.write("base/some.log", b"a known line of the baseline\n");
    ctx.write("out/.keep", b"");
    let net = Net::new(
        &["logs.sim", "other.sim"],
        Box::new(move |q| {
            let path = q.path.split('?').next().unwrap().to_string();
            let mut r = Rng::new(mix(seed, hash_str(&path)));
            if odd > 0 && r.chance(1, odd + 1) {
                return answer(&mut r, &path);
            }
            match pages.get(&path) {
                Some(p) => Resp::ok(p.clone()),
                None if path.ends_with('/') => Resp::status(404, "no"),
                None => Resp::ok(soup(&mut r, r_text(seed))),
            }
        }),
    );
    finish(ctx, a, net, format!("pages {:x}, answers {:x}/{}", mix(r.next(), 0), seed, odd))
}
fn r_text(seed: u64) -> bool {
    seed % 3 != 0
}
/// An answer nobody expects.
fn answer(r: &mut Rng, path: &str) -> Resp {
    let mut a = Resp::ok(soup(r, false));
    a.status = *r.pick(&[100u16, 200, 200, 204, 206, 301, 302, 304, 307, 308, 400, 401, 404, 416, 500, 503, 599, 200]);
    a.encode = r.chance(1, 2);
    let loc = match r.below(8) {
        0 => path.to_string(),
        1 => "/d1/".into(),
        2 => "http://other.sim/x".into(),
        3 => "mailto:x".into(),
        4 => "http://[".into(),
        5 => "//".into(),
        6 => "\u{1}".into(),
        _ => format!("{}/x", path.trim_end_matches('/').chars().take(200).collect::<String>()),
    };
    if matches!(a.status, 300..=308) {
        if r.chance(4, 5) {
            a.headers.push(("Location".into(), loc));
        }
    }
    match r.below(10) {
        0 => a.headers.push(("Content-Type".into(), "text/html; charset=utf-16".into())),
        1 => a.headers.push(("Content-Type".into(), "text/html; charset=\"nonsense".into())),
        2 => a.headers.push(("Content-Type".into(), "\u{0}".into())),
        3 => {
            a.headers.push(("Content-Encoding".into(), r.pick(&["gzip", "deflate", "br", "identity", "x"]).to_string()));
            a.encode = false;
        }
        4 => a.headers.push(("X-Long".into(), "y".repeat(r.below(20_000) as usize))),
        5 => a.headers.push(("Set-Cookie".into(), "a=b; Max-Age=-99999999999".into())),
        _ => {}
    }
    if matches!(a.status, 100 | 204 | 304) {
        a.body.clear();
    }
    a
}

fn json(r: &mut Rng, depth: u32) -> serde_json::Value {
    use serde_json::{json, Value};
    match r.below(if depth > 3 { 8 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(r.next()),
        3 => json!(-(r.below(1 << 40) as i64)),
        4 => json!(r.next() as f64 * 1e280),
        5 => json!(String::from_utf8_lossy(&token(r))),
        6 => json!(r.pick(&["2022-01-01T10:00:00", "9999-12-31T23:59:59", "+262142-12-31T23:59:60", "-262143-01-01T00:00:00", "0000-00-00T00:00:00", "2022-01-01T10:00:00Z", "1969-12-31T23:59:59"])),
        7 => json!(r.pick(&["http://logs.sim/", "http://logs.sim/d0/", "http://logs.sim", "mailto:x", "http://nowhere.sim/é/", "data:x", "http://logs.sim:1/"])),
        8 => Value::Array((0..r.below(4)).map(|_| json(r, depth + 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (word(r), json(r, depth + 1))).collect()),
    }
}
fn record(r: &mut Rng, uuid: &str) -> serde_json::Value {
    use serde_json::json;
    let mut b = json!({
        "uuid": uuid, "job_name": "job", "result": "SUCCESS", "voting": true, "log_url": "http://logs.sim/d0/", "final": true, "project": "a/b",
        "branch": "master", "pipeline": "gate", "duration": 42, "change": r.below(5), "patchset": "1", "ref_url": "http://review.sim/1", "ref": "refs/changes/1",
        "artifacts": [], "end_time": "2022-01-01T10:00:00", "start_time": "2022-01-01T10:00:00", "event_id": "x"
    });
    let keys: Vec<String> = b.as_object().unwrap().keys().cloned().collect();
    for _ in 0..r.below(3) {
        let k = r.pick(&keys).clone();
        if r.chance(1, 4) {
            b.as_object_mut().unwrap().remove(&k);
        } else {
            let v = match k.as_str() {
                "end_time" | "start_time" => json!(r.pick(&["9999-12-31T23:59:59", "+262142-12-31T23:59:60", "-262143-01-01T00:00:00", "-9999-01-01T00:00:00", "0000-01-01T00:00:00", "2022-02-30T10:00:00", "2022-01-01T23:59:60"])),
                "log_url" | "ref_url" => json!(r.pick(&["http://logs.sim/", "mailto:x", "http://logs.sim/d0", "data:,x", "http://nowhere.sim/", "http:///", "http://logs.sim/é/", "file:///d0/"])),
                "duration" => json!(r.pick(&[1e300, -1.0, 0.5, 4294967296.0, -0.0])),
                "artifacts" => json!([{"name": "x", "url": "nonsense"}, null]),
                _ => json(r, 0),
            };
            b[k] = v;
        }
    }
    b
}
/// A build system with strange records.
fn c15_api(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let seed = w.below(1 << 32);
    let mut r = w.bulk();
    let uuid = "a498f74ab32b49ffa9c9e7463fbf8885";
    let mut a = vec![];
    opts(w, &mut a);
    let url = match w.below(3) {
        0 => format!("http://zuul.sim/t/x/build/{}", uuid),
        1 => format!("http://zuul.sim/zuul/build/{}", uuid),
        _ => format!("http://zuul.sim/zuul/build/t/build/{}", uuid),
    };
    if w.chance(1, 4) {
        a.extend(["diff".into(), url.clone(), "base".into()]);
    } else {
        a.extend(["url".into(), url]);
    }
    ctx.write("base/some.log", b"a known line of the baseline\n");
    ctx.write("out/.keep", b"");
    let w = &mut ctx.w;
    let wild = w.chance(1, 4);
    let mut cfgseed = Rng::new(seed);
    let mut target = record(&mut cfgseed, uuid);
    if !wild {
        // usually the build itself is sound
        let mut q = Rng::new(1);
        loop {
            let t = record(&mut q, uuid);
            if serde_json::from_value::<zuul_build::Build>(t.clone()).is_ok() && t["log_url"] == "http://logs.sim/d0/" {
                target = t;
                break;
            }
        }
    }
    let n = w.below(8);
    let builds: Vec<serde_json::Value> = (0..n)
        .map(|i| {
            let u = if r.chance(1, 5) { uuid.to_string() } else { format!("{:032x}", i) };
            if r.chance(1, 8) {
                json(&mut r, 0)
            } else {
                record(&mut r, &u)
            }
        })
        .collect();
    let mut list = serde_json::to_vec(&builds).unwrap();
    let mut one = serde_json::to_vec(&target).unwrap();
    match w.below(8) {
        0 => list = serde_json::to_vec(&json(&mut r, 0)).unwrap(),
        1 => list = b"[".repeat(100_000),
        2 => one = b"{\"uuid\":".repeat(50_000),
        3 => {
            let at = r.below(list.len() as u64) as usize;
            list[at] = r.next() as u8;
        }
        _ => {}
    }
    let site = {
        let mut s = Site::default();
        s.put("/d0/job-output.txt", b"a known line of the baseline\n");
        s.put("/x.log", b"another line of something else\n");
        s
    };
    let net = Net::new(
        &["zuul.sim", "logs.sim"],
        Box::new(move |q| {
            if q.host != "zuul.sim" {
                return site.answer(q);
            }
            let p = q.path.split('?').next().unwrap();
            if p.ends_with("/builds") {
                Resp::ok(list.clone())
            } else if p.contains("/build/") {
                Resp::ok(one.clone())
            } else {
                Resp::status(404, "no")
            }
        }),
    );
    finish(ctx, a, net, format!("records {:x}", mix(seed, r.next())))
}

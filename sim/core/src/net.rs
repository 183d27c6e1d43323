//! Network seam: sockets, readiness and name resolution, with HTTP servers on the other side.
use crate::fs::FdObj;
use crate::raw;
use crate::rng::Rng;
use crate::sim::*;
use std::collections::{HashMap, VecDeque};
use std::io::Write;
use std::sync::atomic::Ordering;

pub struct Req {
    pub host: String,
    pub method: String,
    pub path: String,
    pub url: String,
    pub nth: u32,
    pub gzip_ok: bool,
    pub vtime: u64,
}
#[derive(Clone)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// may be hit by injected faults
    pub faulty: bool,
    /// may be sent with a content encoding
    pub encode: bool,
    /// the answer of an api
    pub json: bool,
}
impl Resp {
    pub fn ok(body: impl Into<Vec<u8>>) -> Resp {
        Resp { status: 200, headers: vec![], body: body.into(), faulty: true, encode: true, json: false }
    }
    pub fn json(body: impl Into<Vec<u8>>) -> Resp {
        Resp { json: true, ..Resp::ok(body) }
    }
    pub fn status(status: u16, body: &str) -> Resp {
        Resp { status, headers: vec![], body: body.as_bytes().to_vec(), faulty: true, encode: true, json: false }
    }
}

pub enum Ev {
    ConnDone(usize, i32),
    Data(usize, Vec<u8>),
    Eof(usize),
    Reset(usize),
}

#[derive(Default)]
struct Sock {
    up: bool,
    peer: (u32, u16),
    rx: VecDeque<u8>,
    eof: bool,
    err: i32,
    so_error: i32,
    server_in: Vec<u8>,
    closed: bool,
    dead_server: bool,
    nfd: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Obj {
    Sock(usize),
    Event(usize),
}
struct Reg {
    fd: i32,
    obj: Obj,
    interest: u32,
    data: u64,
    pending: u32,
}

type Handler = Box<dyn FnMut(&Req) -> Resp>;

#[derive(Default)]
pub struct Net {
    pub hosts: Vec<(String, u32)>,
    pub handler: Option<Handler>,
    socks: Vec<Sock>,
    epolls: Vec<Vec<Reg>>,
    events: Vec<u64>,
    nth: HashMap<String, u32>,
}

impl Net {
    pub fn new(hosts: &[&str], handler: Handler) -> Net {
        let hosts = hosts.iter().enumerate().map(|(i, h)| (h.to_string(), 0x0a000001 + i as u32)).collect();
        Net { hosts, handler: Some(handler), ..Default::default() }
    }
}

const IN: u32 = libc::EPOLLIN as u32;
const OUT: u32 = libc::EPOLLOUT as u32;
const ERR: u32 = libc::EPOLLERR as u32;
const HUP: u32 = libc::EPOLLHUP as u32;
const RDHUP: u32 = libc::EPOLLRDHUP as u32;

fn readiness(s: &Sim, o: Obj) -> u32 {
    match o {
        Obj::Event(i) => OUT | if s.net.events[i] > 0 { IN } else { 0 },
        Obj::Sock(i) => {
            let k = &s.net.socks[i];
            let mut r = 0;
            if k.so_error != 0 || k.err != 0 {
                r |= ERR | HUP | IN | OUT | RDHUP;
            }
            if !k.rx.is_empty() {
                r |= IN;
            }
            if k.eof {
                r |= IN | RDHUP;
            }
            if k.up {
                r |= OUT;
            }
            r
        }
    }
}

fn notify(s: &mut Sim, o: Obj, bits: u32) {
    let mut woken = Vec::new();
    for (i, ep) in s.net.epolls.iter_mut().enumerate() {
        for r in ep.iter_mut() {
            if r.obj == o {
                let b = bits & (r.interest | ERR | HUP);
                if b != 0 {
                    r.pending |= b;
                    woken.push(i);
                }
            }
        }
    }
    for i in woken {
        s.wake(|w| *w == Wait::Epoll(i), usize::MAX);
    }
}

pub fn fire(s: &mut Sim, ev: Ev) {
    match ev {
        Ev::ConnDone(i, e) => {
            if e == 0 {
                s.net.socks[i].up = true;
            } else {
                s.net.socks[i].so_error = e;
            }
            let r = readiness(s, Obj::Sock(i));
            notify(s, Obj::Sock(i), r);
        }
        Ev::Data(i, d) => {
            if !s.net.socks[i].closed && s.net.socks[i].err == 0 {
                s.net.socks[i].rx.extend(d);
                notify(s, Obj::Sock(i), IN);
            }
        }
        Ev::Eof(i) => {
            s.net.socks[i].eof = true;
            s.net.socks[i].dead_server = true;
            notify(s, Obj::Sock(i), IN | RDHUP);
        }
        Ev::Reset(i) => {
            s.net.socks[i].err = libc::ECONNRESET;
            s.net.socks[i].dead_server = true;
            notify(s, Obj::Sock(i), IN | OUT | ERR | HUP | RDHUP);
        }
    }
}

fn placeholder_fd() -> isize {
    unsafe {
        let p = b"/dev/null\0";
        raw::sys4(
            libc::SYS_openat,
            libc::AT_FDCWD as usize,
            p.as_ptr() as usize,
            (libc::O_RDWR | libc::O_CLOEXEC) as usize,
            0,
        )
    }
}

pub fn socket(domain: i32, _ty: i32) -> isize {
    let s = sim();
    s.point(500);
    if domain != libc::AF_INET {
        return -(libc::EAFNOSUPPORT as isize);
    }
    let fd = placeholder_fd();
    if fd >= 0 {
        s.net.socks.push(Sock { nfd: 1, ..Default::default() });
        let id = s.net.socks.len() - 1;
        s.fs.fds.insert(fd as i32, FdObj::Sock(id));
    }
    fd
}

pub fn sock_of(s: &Sim, fd: i32) -> Option<usize> {
    match s.fs.fds.get(&fd) {
        Some(FdObj::Sock(i)) => Some(*i),
        _ => None,
    }
}

pub unsafe fn connect(fd: i32, addr: *const libc::sockaddr_in) -> isize {
    let s = sim();
    let Some(i) = sock_of(s, fd) else { return -(libc::ENOTSOCK as isize) };
    s.point(1000);
    let ip = u32::from_be((*addr).sin_addr.s_addr);
    let port = u16::from_be((*addr).sin_port);
    s.net.socks[i].peer = (ip, port);
    let known = s.net.hosts.iter().find(|h| h.1 == ip).map(|h| h.0.clone());
    let v = if s.cfg.vary { s.choose(N, 8, 1, 4) as u64 } else { 0 };
    let delay = 150_000 * (1 + v * v * 3);
    let Some(host) = known else {
        s.after(delay, Ev::ConnDone(i, libc::ECONNREFUSED));
        return -(libc::EINPROGRESS as isize);
    };
    let ks: Vec<u32> =
        [CONN_REFUSED, CONN_TIMEOUT].iter().copied().filter(|k| s.cfg.net_kinds.contains(k)).collect();
    match s.fault(&ks) {
        Some((k, _)) => {
            s.injected(k, &format!("connect {}", host));
            if k == CONN_REFUSED {
                s.after(delay, Ev::ConnDone(i, libc::ECONNREFUSED));
            } else {
                s.after(127_000_000_000, Ev::ConnDone(i, libc::ETIMEDOUT));
            }
        }
        None => s.after(delay, Ev::ConnDone(i, 0)),
    }
    -(libc::EINPROGRESS as isize)
}

pub unsafe fn recv(fd: i32, bufs: &[(usize, usize)], peek: bool) -> isize {
    let s = sim();
    let Some(i) = sock_of(s, fd) else { return -(libc::ENOTSOCK as isize) };
    s.point(1000);
    let k = &mut s.net.socks[i];
    if !k.rx.is_empty() {
        let mut n = 0;
        for (p, l) in bufs {
            let m = (*l).min(k.rx.len() - if peek { n } else { 0 });
            for j in 0..m {
                let b = if peek { k.rx[n + j] } else { k.rx.pop_front().unwrap() };
                *(*p as *mut u8).add(j) = b;
            }
            n += m;
            if k.rx.is_empty() {
                break;
            }
        }
        return n as isize;
    }
    if k.err != 0 {
        return -(k.err as isize);
    }
    if k.so_error != 0 {
        return -(k.so_error as isize);
    }
    if k.eof {
        return 0;
    }
    -(libc::EAGAIN as isize)
}

pub unsafe fn send(fd: i32, bufs: &[(usize, usize)]) -> isize {
    let s = sim();
    let Some(i) = sock_of(s, fd) else { return -(libc::ENOTSOCK as isize) };
    s.point(1000);
    let k = &mut s.net.socks[i];
    if k.err != 0 || k.dead_server {
        return -(libc::EPIPE as isize);
    }
    if !k.up {
        return -(if k.so_error != 0 { k.so_error } else { libc::EAGAIN } as isize);
    }
    let mut n = 0;
    for (p, l) in bufs {
        k.server_in.extend_from_slice(std::slice::from_raw_parts(*p as *const u8, *l));
        n += l;
    }
    serve(s, i);
    n as isize
}

pub fn closed(s: &mut Sim, i: usize, fd: i32) {
    forget_fd(s, fd);
    let k = &mut s.net.socks[i];
    k.nfd -= 1;
    if k.nfd == 0 {
        k.closed = true;
        k.rx.clear();
    }
}
pub fn forget_fd(s: &mut Sim, fd: i32) {
    for ep in s.net.epolls.iter_mut() {
        ep.retain(|r| r.fd != fd);
    }
}
pub fn shutdown(s: &mut Sim, i: usize) {
    s.net.socks[i].dead_server = true;
}
pub fn take_error(s: &mut Sim, i: usize) -> i32 {
    let k = &mut s.net.socks[i];
    let e = if k.so_error != 0 { k.so_error } else { k.err };
    k.so_error = 0;
    if e != 0 && k.err == 0 && !k.up {
        // a failed connection stays failed
        k.err = e;
    }
    e
}
pub fn peer(s: &Sim, i: usize) -> Option<(u32, u16)> {
    let k = &s.net.socks[i];
    if k.up && k.err == 0 {
        Some(k.peer)
    } else {
        None
    }
}
pub fn dup(s: &mut Sim, fd: i32) -> isize {
    let new = placeholder_fd();
    if new >= 0 {
        let o = match &s.fs.fds[&fd] {
            FdObj::Sock(i) => {
                s.net.socks[*i].nfd += 1;
                FdObj::Sock(*i)
            }
            FdObj::Epoll(i) => FdObj::Epoll(*i),
            FdObj::EventFd(i) => FdObj::EventFd(*i),
            FdObj::File { .. } => unreachable!(),
        };
        s.fs.fds.insert(new as i32, o);
    }
    new
}

// ---- epoll and eventfd -----------------------------------------------------
pub fn epoll_create() -> isize {
    let s = sim();
    s.point(300);
    let fd = placeholder_fd();
    if fd >= 0 {
        s.net.epolls.push(Vec::new());
        let id = s.net.epolls.len() - 1;
        s.fs.fds.insert(fd as i32, FdObj::Epoll(id));
    }
    fd
}
pub fn eventfd(init: u64) -> isize {
    let s = sim();
    s.point(300);
    let fd = placeholder_fd();
    if fd >= 0 {
        s.net.events.push(init);
        let id = s.net.events.len() - 1;
        s.fs.fds.insert(fd as i32, FdObj::EventFd(id));
    }
    fd
}
pub fn event_write(s: &mut Sim, i: usize, v: u64) -> isize {
    s.point(300);
    s.net.events[i] = s.net.events[i].saturating_add(v);
    notify(s, Obj::Event(i), IN);
    8
}
pub fn event_read(s: &mut Sim, i: usize) -> Result<u64, i32> {
    s.point(300);
    match std::mem::take(&mut s.net.events[i]) {
        0 => Err(libc::EAGAIN),
        v => Ok(v),
    }
}
pub unsafe fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *const libc::epoll_event) -> isize {
    let s = sim();
    s.point(300);
    let Some(FdObj::Epoll(e)) = s.fs.fds.get(&ep) else { return -(libc::EBADF as isize) };
    let e = *e;
    if op == libc::EPOLL_CTL_DEL {
        s.net.epolls[e].retain(|r| r.fd != fd);
        return 0;
    }
    let obj = match s.fs.fds.get(&fd) {
        Some(FdObj::Sock(i)) => Obj::Sock(*i),
        Some(FdObj::EventFd(i)) => Obj::Event(*i),
        _ => return -(libc::EPERM as isize),
    };
    let (interest, data) = ((*ev).events, (*ev).u64);
    let pending = readiness(s, obj) & (interest | ERR | HUP);
    s.net.epolls[e].retain(|r| r.fd != fd);
    s.net.epolls[e].push(Reg { fd, obj, interest, data, pending });
    if pending != 0 {
        s.wake(|w| *w == Wait::Epoll(e), usize::MAX);
    }
    0
}
pub unsafe fn epoll_wait(ep: i32, out: *mut libc::epoll_event, max: i32, timeout_ms: i32) -> isize {
    let s = sim();
    let Some(FdObj::Epoll(e)) = s.fs.fds.get(&ep) else { return -(libc::EBADF as isize) };
    let e = *e;
    s.point(500);
    let deadline = if timeout_ms < 0 { None } else { Some(s.vtime + timeout_ms as u64 * 1_000_000) };
    loop {
        let mut n = 0;
        for r in s.net.epolls[e].iter_mut() {
            if r.pending != 0 && n < max {
                (*out.add(n as usize)).events = std::mem::take(&mut r.pending);
                (*out.add(n as usize)).u64 = r.data;
                n += 1;
            }
        }
        if n > 0 || timeout_ms == 0 {
            return n as isize;
        }
        if s.block(Wait::Epoll(e), deadline) {
            return 0;
        }
    }
}

// ---- HTTP servers ----------------------------------------------------------
fn serve(s: &mut Sim, i: usize) {
    loop {
        let k = &mut s.net.socks[i];
        let Some(end) = k.server_in.windows(4).position(|w| w == b"\r\n\r\n") else { return };
        let head: Vec<u8> = k.server_in.drain(..end + 4).collect();
        let head = String::from_utf8_lossy(&head).into_owned();
        let (ip, port) = k.peer;
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        let method = first.next().unwrap_or("").to_string();
        let path = first.next().unwrap_or("/").to_string();
        let mut host = String::new();
        let mut gzip_ok = false;
        for l in lines {
            let low = l.to_ascii_lowercase();
            if let Some(h) = low.strip_prefix("host:") {
                host = h.trim().to_string();
            }
            if low.starts_with("accept-encoding:") && low.contains("gzip") {
                gzip_ok = true;
            }
        }
        if host.is_empty() {
            host = s.net.hosts.iter().find(|h| h.1 == ip).map(|h| h.0.clone()).unwrap_or_default();
        }
        let _ = port;
        let url = format!("http://{}{}", host, path);
        let key = format!("{} {}", method, url);
        let nth = s.net.nth.entry(key.clone()).or_insert(0);
        *nth += 1;
        let nth = *nth;
        s.shm.requests.fetch_add(1, Ordering::Relaxed);
        s.trace(&format!("net request {}", key));
        let req = Req { host, method, path, url, nth, gzip_ok, vtime: s.vtime };
        let mut h = s.net.handler.take().expect("handler");
        let resp = h(&req);
        s.net.handler = Some(h);
        answer(s, i, &req, resp);
    }
}

fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

fn answer(s: &mut Sim, i: usize, req: &Req, mut resp: Resp) {
    let all = [
        RESET_EARLY, RESET_MID, TRUNC, STALL_HEAD, STALL_MID, HTTP_5XX, HTTP_4XX, HTTP_BUSY, GARBAGE, BAD_GZIP, HTTP_WRONG,
    ];
    let ks: Vec<u32> = all
        .iter()
        .copied()
        .filter(|k| resp.faulty && s.cfg.net_kinds.contains(k))
        .filter(|k| {
            let body_fault = matches!(*k, RESET_MID | TRUNC | STALL_MID | BAD_GZIP);
            !body_fault || (req.method != "HEAD" && !resp.body.is_empty() && resp.status == 200)
        })
        .filter(|k| *k != BAD_GZIP || req.gzip_ok && resp.encode)
        // (only an api answer can be told from another one)
        .filter(|k| *k != HTTP_WRONG || resp.json && resp.status == 200)
        .collect();
    let f = s.fault(&ks);
    if let Some((k, _)) = f {
        s.injected(k, &format!("{} {}", req.method, req.url));
    }
    let v = if s.cfg.vary { s.choose(N, 1 << 16, 1, 2) } else { 0 };
    let mut r = Rng::new(v as u64);
    let mut framing = if v == 0 { 0 } else { r.below(3) };
    let encode = v != 0 && r.chance(1, 3) && resp.encode && req.gzip_ok;
    if v != 0 {
        s.count(NET_SEG);
    }
    let mut cut: Option<usize> = None; // send only that much of the framed body
    let mut then: Option<bool> = None; // Some(true): reset, Some(false): close early
    let mut stall = false;
    let (k, x) = f.unwrap_or((u32::MAX, 0));
    // a failure that never ends is always the same
    let x = if s.cfg.faults.rate == 1 { req.path.len() } else { x as usize };
    match k {
        RESET_EARLY => {
            s.after(200_000, Ev::Reset(i));
            return;
        }
        STALL_HEAD => return,
        GARBAGE => {
            s.after(200_000, Ev::Data(i, b"SSH-2.0-OpenSSH_8.9\r\n\r\n".to_vec()));
            s.after(300_000, Ev::Eof(i));
            return;
        }
        HTTP_5XX => {
            resp = Resp::status([500, 502, 503, 504][x % 4], "<html>\n<body>\nbackend exploded temporarily sorry\n</body>\n</html>\n");
        }
        HTTP_BUSY => {
            resp = Resp::status([429, 408][x % 2], "<html>\n<body>\nplease come back later\n</body>\n</html>\n");
        }
        HTTP_WRONG => {
            resp.body = match x % 3 {
                0 => b"<html>\n<body>\nwe will be back soon\n</body>\n</html>\n".to_vec(),
                1 => vec![],
                _ => resp.body[..resp.body.len() / 2].to_vec(),
            };
        }
        HTTP_4XX => {
            resp = Resp::status([403, 404, 410][x % 3], "<html>\n<body>\nnothing anywhere around here\n</body>\n</html>\n");
        }
        TRUNC | STALL_MID => {
            framing = framing.min(1);
            stall = k == STALL_MID;
            then = Some(false);
        }
        RESET_MID => then = Some(true),
        _ => {}
    }
    let mut body = resp.body.clone();
    let mut headers = resp.headers.clone();
    if k == BAD_GZIP {
        body = gz(&body);
        headers.push(("content-encoding".into(), "gzip".into()));
        let n = body.len();
        if x % 2 == 0 {
            // damage the checksum
            body[n - 8 + (x / 2) % 4] ^= 1 << (x % 7);
        } else {
            body.truncate(n - 9 - (x / 2) % (n - 18));
        }
    } else if encode {
        body = gz(&body);
        headers.push(("content-encoding".into(), "gzip".into()));
    }
    if then.is_some() {
        cut = Some(x % body.len().max(1));
    }
    let mut out = format!("HTTP/1.1 {} X\r\ncontent-type: text/plain\r\n", resp.status).into_bytes();
    for (a, b) in &headers {
        out.extend_from_slice(format!("{}: {}\r\n", a, b).as_bytes());
    }
    let no_body = req.method == "HEAD" || resp.status == 304 || resp.status == 204;
    let mut close = false;
    let mut payload = Vec::new();
    if no_body {
        out.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
    } else {
        let sent = &body[..cut.unwrap_or(body.len())];
        match framing {
            0 => {
                out.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
                payload.extend_from_slice(sent);
            }
            1 => {
                out.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
                let mut p = 0;
                while p < sent.len() {
                    let n = if v == 0 { sent.len() } else { 1 + r.below(sent.len() as u64) as usize }.min(sent.len() - p);
                    payload.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                    payload.extend_from_slice(&sent[p..p + n]);
                    payload.extend_from_slice(b"\r\n");
                    p += n;
                }
                if cut.is_none() {
                    payload.extend_from_slice(b"0\r\n\r\n");
                }
            }
            _ => {
                out.extend_from_slice(b"connection: close\r\n\r\n");
                payload.extend_from_slice(sent);
                close = true;
            }
        }
    }
    // segments with delays
    out.extend_from_slice(&payload);
    let mut t = 300_000u64;
    if v == 0 {
        s.after(t, Ev::Data(i, out));
    } else {
        if r.chance(1, 20) {
            // a slow server, still well within the client's patience
            t += 1_000_000_000 * (1 + r.below(12));
            s.count(SLOW);
        }
        let nseg = 1 + r.below(12) as usize;
        let mut cuts: Vec<usize> = (0..nseg).map(|_| r.below(out.len() as u64 + 1) as usize).collect();
        cuts.push(out.len());
        cuts.sort();
        let mut p = 0;
        for c in cuts {
            if c > p {
                t += match r.below(6) {
                    0 => 0,
                    1 => 1_000 * r.below(2000),
                    2 => 40_000_000,
                    _ => 50_000 + r.below(500_000),
                };
                s.after(t, Ev::Data(i, out[p..c].to_vec()));
                p = c;
            }
        }
    }
    t += 1000;
    if stall {
        return;
    }
    match then {
        Some(true) => s.after(t, Ev::Reset(i)),
        Some(false) => s.after(t, Ev::Eof(i)),
        None if close => s.after(t, Ev::Eof(i)),
        None => {}
    }
}

// ---- names -----------------------------------------------------------------
pub fn resolve(name: &str) -> Result<u32, i32> {
    let s = sim();
    let v = if s.cfg.vary { s.choose(N, 8, 1, 4) as u64 } else { 0 };
    let d = s.vtime + 500_000 * (1 + v * v * v);
    s.block(Wait::Sleep, Some(d));
    if s.cfg.net_kinds.contains(&DNS_FAIL) {
        if let Some((k, _)) = s.fault(&[DNS_FAIL]) {
            s.injected(k, &format!("resolve {}", name));
            return Err(libc::EAI_AGAIN);
        }
    }
    if let Ok(ip) = name.parse::<std::net::Ipv4Addr>() {
        return Ok(u32::from(ip));
    }
    s.net.hosts.iter().find(|h| h.0 == name).map(|h| h.1).ok_or(libc::EAI_NONAME)
}

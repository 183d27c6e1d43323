//! File system seam: real files below the scratch directory, every operation a scheduling, fault and crash point.
use crate::raw;
use crate::rng::Rng;
use crate::shm::*;
use crate::sim::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

pub enum FdObj {
    File { path: String, seg: Option<Rng>, bad: bool },
    Sock(usize),
    Epoll(usize),
    EventFd(usize),
}

pub struct DirObj {
    pub entries: Vec<Box<libc::dirent64>>,
    pub pos: usize,
    pub fail_at: Option<usize>,
}

#[derive(Default)]
pub struct Fs {
    pub fds: HashMap<i32, FdObj>,
    pub dirs: HashMap<usize, DirObj>,
    pub disk_full: bool,
    pub bad_paths: HashMap<String, i32>,
    /// files with data that is not yet on the disk: inode, descriptor and how much of it was synced
    pub dirty: Vec<(u64, i32, u64)>,
}

fn normalize(p: &str) -> String {
    let mut out: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn lossy(p: *const libc::c_char) -> String {
    unsafe { String::from_utf8_lossy(std::ffi::CStr::from_ptr(p).to_bytes()).into_owned() }
}

impl Sim {
    /// The path relative to the scratch directory, if it lies in there.
    pub fn rel(&self, p: *const libc::c_char) -> Result<String, String> {
        let s = lossy(p);
        let abs = if s.starts_with('/') {
            normalize(&s)
        } else {
            let mut buf = vec![0u8; 4096];
            let n = unsafe { raw::sys3(libc::SYS_getcwd, buf.as_mut_ptr() as usize, 4096, 0) };
            let cwd = String::from_utf8_lossy(&buf[..(n.max(1) - 1) as usize]).into_owned();
            normalize(&format!("{}/{}", cwd, s))
        };
        match abs.strip_prefix(&self.cfg.scratch) {
            Some("") => Ok(String::new()),
            Some(r) if r.starts_with('/') => Ok(r[1..].to_string()),
            _ => Err(abs),
        }
    }
    fn kinds(&self, path: &str, want: &[u32]) -> Vec<u32> {
        match self.cfg.scopes.iter().find(|s| path.starts_with(&s.prefix)) {
            Some(s) => want.iter().copied().filter(|k| s.kinds.contains(k)).collect(),
            None => Vec::new(),
        }
    }
    /// Common part of every file operation: time, scheduling, turn, trace.
    pub fn fs_point(&mut self, what: &str, path: &str) {
        self.point(2000);
        self.turn_point();
        if self.cfg.trace {
            self.trace(&format!("fs {} {}", what, path));
        }
    }
    /// Crash before the operation, or another fault of the wanted kinds.
    pub fn fs_fault(&mut self, what: &str, path: &str, want: &[u32]) -> Option<(u32, u32)> {
        let mut w = want.to_vec();
        w.extend([CRASH, POWER_LOSS]);
        let ks = self.kinds(path, &w);
        let f = self.fault(&ks)?;
        self.injected(f.0, &format!("{} {}", path, what));
        if f.0 == CRASH {
            finish(ST_CRASH, 0)
        }
        if f.0 == POWER_LOSS {
            self.lose_data(f.1 as u64, path);
            finish(ST_CRASH, 2)
        }
        Some(f)
    }
    fn stat(fd: i32) -> (u64, u64) {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            raw::sys3(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0);
            (st.st_ino, st.st_size as u64)
        }
    }
    /// Data is about to be written to a file.
    fn dirty(&mut self, fd: i32) {
        if !self.cfg.scopes.iter().any(|s| s.kinds.contains(&POWER_LOSS)) {
            return;
        }
        let (ino, size) = Sim::stat(fd);
        if !self.fs.dirty.iter().any(|d| d.0 == ino) {
            let dup = unsafe { raw::sys3(libc::SYS_fcntl, fd as usize, libc::F_DUPFD_CLOEXEC as usize, 600) };
            if dup >= 0 {
                self.fs.dirty.push((ino, dup as i32, size));
            }
        }
    }
    /// The data of a file has reached the disk.
    pub fn synced(&mut self, fd: i32) {
        let (ino, _) = Sim::stat(fd);
        if let Some(i) = self.fs.dirty.iter().position(|d| d.0 == ino) {
            let d = self.fs.dirty.swap_remove(i);
            unsafe { raw::sys3(libc::SYS_close, d.1 as usize, 0, 0) };
        }
    }
    /// Names have reached the disk, but of the data that was not synced any part may be missing.
    fn lose_data(&mut self, x: u64, path: &str) {
        let holes = self.kinds(path, &[POWER_HOLES]).len() > 0;
        let mut r = Rng::new(x);
        for (_, fd, from) in std::mem::take(&mut self.fs.dirty) {
            let (_, size) = Sim::stat(fd);
            if size <= from || r.chance(1, 4) {
                continue;
            }
            let keep = if r.chance(1, 3) { from } else { from + r.below(size - from + 1) };
            unsafe { raw::sys3(libc::SYS_ftruncate, fd as usize, keep as usize, 0) };
            if r.chance(1, 3) && holes {
                // blocks that were allocated, but never written
                unsafe { raw::sys3(libc::SYS_ftruncate, fd as usize, size as usize, 0) };
            }
        }
    }
    pub fn escape(&mut self, what: &str, path: &str) {
        self.shm.escapes.fetch_add(1, Ordering::SeqCst);
        self.shm.events.append(format!("escape\t0\t0\t{} {}\n", what, path).as_bytes());
    }
    pub fn turn_point(&mut self) {
        let Some((t, me)) = self.cfg.turn else { return };
        // a process acts on the shared file system only when it holds the turn
        wait_turn(t, me);
        let other = 1 - me;
        if t.done[other as usize].load(Ordering::SeqCst) == 0 {
            let den = self.cfg.turn_den;
            if self.choose(T, 2, 1, den) == 1 {
                self.count(PSWITCH);
                t.turn.store(other, Ordering::SeqCst);
                raw::futex_wake(&t.turn);
                wait_turn(t, me);
            }
        }
    }
}

pub fn wait_turn(t: &Turn, me: u32) {
    loop {
        let v = t.turn.load(Ordering::SeqCst);
        if v == me {
            return;
        }
        if t.done[v as usize].load(Ordering::SeqCst) != 0 {
            t.turn.store(me, Ordering::SeqCst);
            return;
        }
        raw::futex_wait_timeout(&t.turn, v, 50);
    }
}

pub unsafe fn open(path: *const libc::c_char, flags: i32, mode: u32) -> isize {
    let s = sim();
    let rel = match s.rel(path) {
        Ok(r) => r,
        Err(abs) => {
            s.point(500);
            if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 && abs != "/dev/null" {
                s.escape("open for writing", &abs);
                return -(libc::EACCES as isize);
            }
            if abs.starts_with("/proc/") || abs.starts_with("/sys/") {
                return -(libc::ENOENT as isize);
            }
            return raw::sys4(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize);
        }
    };
    let wr = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    let what = if wr { "open-w" } else { "open-r" };
    s.fs_point(what, &rel);
    if let Some(e) = s.fs.bad_paths.get(&rel) {
        return -(*e as isize);
    }
    if s.fs.disk_full && flags & libc::O_CREAT != 0 && !exists(path) {
        return -(libc::ENOSPC as isize);
    }
    let want: &[u32] = if wr {
        &[OPEN_EACCES, OPEN_EMFILE, OPEN_EIO, WRITE_ENOSPC, DISK_FULL]
    } else {
        &[OPEN_EACCES, OPEN_EMFILE, OPEN_EIO, OPEN_ENOENT, READ_EINTR]
    };
    if let Some((k, _)) = s.fs_fault(what, &rel, want) {
        let e = match k {
            OPEN_EACCES => {
                s.fs.bad_paths.insert(rel.clone(), libc::EACCES);
                libc::EACCES
            }
            OPEN_EMFILE => libc::EMFILE,
            OPEN_ENOENT => {
                s.fs.bad_paths.insert(rel.clone(), libc::ENOENT);
                libc::ENOENT
            }
            READ_EINTR => libc::EINTR,
            WRITE_ENOSPC => libc::ENOSPC,
            DISK_FULL => {
                s.fs.disk_full = true;
                libc::ENOSPC
            }
            _ => libc::EIO,
        };
        return -(e as isize);
    }
    let fd = raw::sys4(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize);
    if fd >= 0 {
        let seg = if s.cfg.vary && !wr {
            match s.choose(N, 1 << 16, 1, 2) {
                0 => None,
                v => Some(Rng::new(v as u64)),
            }
        } else {
            None
        };
        s.fs.fds.insert(fd as i32, FdObj::File { path: rel, seg, bad: false });
    }
    fd
}

fn exists(path: *const libc::c_char) -> bool {
    unsafe { raw::sys3(libc::SYS_access, path as usize, 0, 0) == 0 }
}

/// A short length for the given request, biased to the interesting ends.
pub fn short_len(r: &mut Rng, n: usize) -> usize {
    if n <= 1 {
        return n;
    }
    (match r.below(8) {
        0 => 1,
        1 => n - 1,
        2 | 3 => 1 + r.below(n.min(16) as u64) as usize,
        4 => n,
        _ => 1 + r.below(n as u64) as usize,
    })
    .min(n)
    .max(1)
}

pub unsafe fn read(fd: i32, buf: *mut u8, len: usize, off: Option<i64>) -> isize {
    let s = sim();
    let (path, bad) = match s.fs.fds.get(&fd) {
        Some(FdObj::File { path, bad, .. }) => (path.clone(), *bad),
        _ => return read_raw(fd, buf, len, off),
    };
    s.fs_point("read", &path);
    if bad {
        return -(libc::EIO as isize);
    }
    if len == 0 {
        return read_raw(fd, buf, len, off);
    }
    let mut len = len;
    let at = raw::sys3(libc::SYS_lseek, fd as usize, 0, libc::SEEK_CUR as usize);
    if let Some((k, x)) = s.fs_fault(&format!("read @{}", at), &path, &[READ_EIO, READ_EINTR, READ_SHORT]) {
        match k {
            READ_EIO => {
                if let Some(FdObj::File { bad, .. }) = s.fs.fds.get_mut(&fd) {
                    *bad = true;
                }
                return -(libc::EIO as isize);
            }
            READ_EINTR => return -(libc::EINTR as isize),
            _ => len = 1 + x as usize % len,
        }
    } else if let Some(FdObj::File { seg: Some(r), .. }) = s.fs.fds.get_mut(&fd) {
        let l = short_len(r, len);
        if l < len {
            s.count(READ_SHORT);
        }
        len = l;
    }
    read_raw(fd, buf, len, off)
}

unsafe fn read_raw(fd: i32, buf: *mut u8, len: usize, off: Option<i64>) -> isize {
    match off {
        None => raw::sys3(libc::SYS_read, fd as usize, buf as usize, len),
        Some(o) => raw::sys4(libc::SYS_pread64, fd as usize, buf as usize, len, o as usize),
    }
}

pub unsafe fn write(fd: i32, buf: *const u8, len: usize, off: Option<i64>) -> isize {
    let s = sim();
    let path = match s.fs.fds.get(&fd) {
        Some(FdObj::File { path, .. }) => path.clone(),
        _ if fd == 1 || fd == 2 => {
            let data = std::slice::from_raw_parts(buf, len);
            s.point(200);
            if fd == 1 {
                s.shm.out.append(data)
            } else {
                s.shm.err.append(data)
            }
            return len as isize;
        }
        _ => return write_raw(fd, buf, len, off),
    };
    s.fs_point("write", &path);
    if s.fs.disk_full {
        return -(libc::ENOSPC as isize);
    }
    let mut len = len;
    if len > 0 {
        if let Some((k, x)) = s.fs_fault(
            "write",
            &path,
            &[WRITE_ENOSPC, WRITE_EIO, WRITE_SHORT, WRITE_EINTR, DISK_FULL, CRASH_TORN],
        ) {
            match k {
                WRITE_EIO => return -(libc::EIO as isize),
                WRITE_EINTR => return -(libc::EINTR as isize),
                WRITE_ENOSPC => return -(libc::ENOSPC as isize),
                DISK_FULL => {
                    // what still fits is written, the rest never is
                    s.fs.disk_full = true;
                    let fit = x as usize % (len + 1);
                    if fit == 0 {
                        return -(libc::ENOSPC as isize);
                    }
                    len = fit;
                }
                CRASH_TORN => {
                    let n = x as usize % (len + 1);
                    if n > 0 {
                        write_raw(fd, buf, n, off);
                    }
                    finish(ST_CRASH, 1)
                }
                _ => len = 1 + x as usize % len,
            }
        }
    }
    write_raw(fd, buf, len, off)
}

unsafe fn write_raw(fd: i32, buf: *const u8, len: usize, off: Option<i64>) -> isize {
    if len > 0 {
        sim().dirty(fd);
    }
    match off {
        None => raw::sys3(libc::SYS_write, fd as usize, buf as usize, len),
        Some(o) => raw::sys4(libc::SYS_pwrite64, fd as usize, buf as usize, len, o as usize),
    }
}

/// An operation on one or two paths. `change` says whether it changes the file system.
pub unsafe fn path_op(
    what: &str,
    p1: *const libc::c_char,
    p2: Option<*const libc::c_char>,
    change: bool,
    want: &[u32],
    real: impl FnOnce() -> isize,
) -> isize {
    let s = sim();
    let r1 = s.rel(p1);
    let r2 = p2.map(|p| s.rel(p));
    let mut rels = Vec::new();
    for r in [Some(r1), r2].into_iter().flatten() {
        match r {
            Ok(r) => rels.push(r),
            Err(abs) => {
                s.point(500);
                if change {
                    s.escape(what, &abs);
                    return -(libc::EACCES as isize);
                }
                return real();
            }
        }
    }
    // the scope of a two-path operation is that of its second path
    let path = rels.last().unwrap().clone();
    s.fs_point(what, &rels.join(" -> "));
    if s.fs.disk_full && change && (what == "mkdir" || what == "link") {
        return -(libc::ENOSPC as isize);
    }
    if let Some((_, x)) = s.fs_fault(what, &path, want) {
        let e = match (what, x % 3) {
            ("mkdir", 0) => libc::ENOSPC,
            ("mkdir", _) => libc::EACCES,
            ("rename", 0) => libc::EIO,
            ("rename", _) => libc::EACCES,
            ("unlink", _) => libc::EACCES,
            _ => libc::EIO,
        };
        return -(e as isize);
    }
    real()
}

pub unsafe fn close(fd: i32) -> isize {
    let s = sim();
    match s.fs.fds.remove(&fd) {
        Some(FdObj::File { path, .. }) => {
            s.fs_point("close", &path);
            s.fs_fault("close", &path, &[]);
        }
        Some(FdObj::Sock(id)) => {
            s.point(300);
            crate::net::closed(s, id, fd);
        }
        Some(FdObj::Epoll(_)) | Some(FdObj::EventFd(_)) => {
            s.point(300);
            crate::net::forget_fd(s, fd);
        }
        None => {}
    }
    raw::sys3(libc::SYS_close, fd as usize, 0, 0)
}

/// Slurp a directory and fix its order: sorted by default, permuted by choice.
pub unsafe fn dir_entries(
    dir: usize,
    rel: &str,
    mut next: impl FnMut() -> *mut libc::dirent64,
) {
    let s = sim();
    let mut entries: Vec<Box<libc::dirent64>> = Vec::new();
    loop {
        let e = next();
        if e.is_null() {
            break;
        }
        let mut b: Box<libc::dirent64> = Box::new(std::mem::zeroed());
        // d_reclen tells how much of the entry is really there
        std::ptr::copy_nonoverlapping(e as *const u8, &mut *b as *mut _ as *mut u8, (*e).d_reclen as usize);
        entries.push(b);
    }
    entries.sort_by(|a, b| name(a).cmp(name(b)));
    if s.cfg.vary && entries.len() > 1 {
        let v = s.choose(N, 1 << 16, 3, 4);
        if v != 0 {
            Rng::new(v as u64).shuffle(&mut entries);
            s.count(DIR_ORDER);
        }
    }
    let n = entries.len();
    let fail_at = match s.fs_fault("readdir", rel, &[DIR_ERR]) {
        Some((_, x)) => Some(x as usize % (n + 1)),
        None => None,
    };
    s.fs.dirs.insert(dir, DirObj { entries, pos: 0, fail_at });
}
fn name(d: &libc::dirent64) -> &[u8] {
    unsafe { std::ffi::CStr::from_ptr(d.d_name.as_ptr()).to_bytes() }
}

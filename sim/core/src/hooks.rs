//! The libc symbols the simulator takes over. Outside of a simulated process they go straight to the kernel.
#![allow(clippy::missing_safety_doc, non_snake_case)]
use crate::fs::{self, FdObj};
use crate::net;
use crate::raw::{self, ret, set_errno};
use crate::shm::*;
use crate::sim::*;
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

const CWD: usize = libc::AT_FDCWD as usize;

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static PTR: AtomicUsize = AtomicUsize::new(0);
        let mut p = PTR.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            PTR.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

// ---- files -----------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: u32) -> c_int {
    if !live() {
        return ret(raw::sys4(libc::SYS_openat, CWD, p as usize, fl as usize, mode as usize)) as c_int;
    }
    let _g = enter();
    ret(fs::open(p, fl, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: u32) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: u32) -> c_int {
    if !live() || (d != libc::AT_FDCWD && *p as u8 != b'/') {
        return ret(raw::sys4(libc::SYS_openat, d as usize, p as usize, fl as usize, mode as usize)) as c_int;
    }
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: u32) -> c_int {
    openat64(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: u32) -> c_int {
    open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !live() {
        return ret(raw::sys3(libc::SYS_read, fd as usize, buf as usize, n));
    }
    let _g = enter();
    let s = sim();
    match s.fs.fds.get(&fd) {
        Some(FdObj::Sock(_)) => ret(net::recv(fd, &[(buf as usize, n)], false)),
        Some(FdObj::EventFd(i)) => {
            let i = *i;
            match net::event_read(s, i) {
                Ok(v) => {
                    (buf as *mut u64).write_unaligned(v);
                    8
                }
                Err(e) => ret(-(e as isize)),
            }
        }
        _ => ret(fs::read(fd, buf as *mut u8, n, None)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if !live() {
        return ret(raw::sys4(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize));
    }
    let _g = enter();
    ret(fs::read(fd, buf as *mut u8, n, Some(off)))
}
unsafe fn iovs(v: *const libc::iovec, n: c_int) -> Vec<(usize, usize)> {
    (0..n as usize).map(|i| ((*v.add(i)).iov_base as usize, (*v.add(i)).iov_len)).collect()
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !live() {
        return ret(raw::sys3(libc::SYS_readv, fd as usize, v as usize, n as usize));
    }
    let bufs = iovs(v, n);
    if let Some(FdObj::Sock(_)) = sim().fs.fds.get(&fd) {
        let _g = enter();
        return ret(net::recv(fd, &bufs, false));
    }
    match bufs.iter().find(|b| b.1 > 0) {
        Some(b) => read(fd, b.0 as *mut c_void, b.1),
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !live() {
        return ret(raw::sys3(libc::SYS_write, fd as usize, buf as usize, n));
    }
    let _g = enter();
    let s = sim();
    match s.fs.fds.get(&fd) {
        Some(FdObj::Sock(_)) => ret(net::send(fd, &[(buf as usize, n)])),
        Some(FdObj::EventFd(i)) => {
            let i = *i;
            ret(net::event_write(s, i, (buf as *const u64).read_unaligned()))
        }
        _ => ret(fs::write(fd, buf as *const u8, n, None)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if !live() {
        return ret(raw::sys4(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize));
    }
    let _g = enter();
    ret(fs::write(fd, buf as *const u8, n, Some(off)))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !live() {
        return ret(raw::sys3(libc::SYS_writev, fd as usize, v as usize, n as usize));
    }
    let bufs = iovs(v, n);
    if let Some(FdObj::Sock(_)) = sim().fs.fds.get(&fd) {
        let _g = enter();
        return ret(net::send(fd, &bufs));
    }
    match bufs.iter().find(|b| b.1 > 0) {
        Some(b) => write(fd, b.0 as *const c_void, b.1),
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_close, fd as usize, 0, 0)) as c_int;
    }
    let _g = enter();
    ret(fs::close(fd)) as c_int
}
macro_rules! stat_like {
    ($name:ident, ($($a:ident : $t:ty),*), $path:ident, $real:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            let real = || $real;
            if !live() {
                return ret(real()) as c_int;
            }
            let _g = enter();
            if *$path == 0 {
                return ret(real()) as c_int;
            }
            ret(fs::path_op("stat", $path, None, false, &[STAT_ERR], real)) as c_int
        }
    };
}
stat_like!(statx, (d: c_int, p: *const c_char, fl: c_int, mask: u32, b: *mut c_void), p,
    raw::sys6(libc::SYS_statx, d as usize, p as usize, fl as usize, mask as usize, b as usize, 0));
stat_like!(stat64, (p: *const c_char, b: *mut c_void), p,
    raw::sys4(libc::SYS_newfstatat, CWD, p as usize, b as usize, 0));
stat_like!(stat, (p: *const c_char, b: *mut c_void), p,
    raw::sys4(libc::SYS_newfstatat, CWD, p as usize, b as usize, 0));
stat_like!(lstat64, (p: *const c_char, b: *mut c_void), p,
    raw::sys4(libc::SYS_newfstatat, CWD, p as usize, b as usize, libc::AT_SYMLINK_NOFOLLOW as usize));
stat_like!(lstat, (p: *const c_char, b: *mut c_void), p,
    raw::sys4(libc::SYS_newfstatat, CWD, p as usize, b as usize, libc::AT_SYMLINK_NOFOLLOW as usize));
stat_like!(access, (p: *const c_char, m: c_int), p,
    raw::sys3(libc::SYS_access, p as usize, m as usize, 0));

macro_rules! change {
    ($name:ident, $what:literal, ($($a:ident : $t:ty),*), $p1:expr, $p2:expr, $want:expr, $real:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            let real = || $real;
            if !live() {
                return ret(real()) as c_int;
            }
            let _g = enter();
            ret(fs::path_op($what, $p1, $p2, true, $want, real)) as c_int
        }
    };
}
change!(rename, "rename", (a: *const c_char, b: *const c_char), a, Some(b), &[RENAME_ERR],
    raw::sys3(libc::SYS_rename, a as usize, b as usize, 0));
change!(renameat, "rename", (d: c_int, a: *const c_char, e: c_int, b: *const c_char), a, Some(b), &[RENAME_ERR],
    raw::sys4(libc::SYS_renameat, d as usize, a as usize, e as usize, b as usize));
change!(renameat2, "rename", (d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: u32), a, Some(b), &[RENAME_ERR],
    raw::sys6(libc::SYS_renameat2, d as usize, a as usize, e as usize, b as usize, f as usize, 0));
change!(link, "link", (a: *const c_char, b: *const c_char), a, Some(b), &[RENAME_ERR],
    raw::sys3(libc::SYS_link, a as usize, b as usize, 0));
change!(linkat, "link", (d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int), a, Some(b), &[RENAME_ERR],
    raw::sys6(libc::SYS_linkat, d as usize, a as usize, e as usize, b as usize, f as usize, 0));
change!(symlink, "symlink", (a: *const c_char, b: *const c_char), b, None, &[RENAME_ERR],
    raw::sys3(libc::SYS_symlink, a as usize, b as usize, 0));
change!(unlink, "unlink", (a: *const c_char), a, None, &[UNLINK_ERR],
    raw::sys3(libc::SYS_unlink, a as usize, 0, 0));
change!(unlinkat, "unlink", (d: c_int, a: *const c_char, f: c_int), a, None, &[UNLINK_ERR],
    if !live() || d == libc::AT_FDCWD || *a as u8 == b'/' { raw::sys3(libc::SYS_unlinkat, d as usize, a as usize, f as usize) } else { -(libc::EACCES as isize) });
change!(rmdir, "unlink", (a: *const c_char), a, None, &[UNLINK_ERR],
    raw::sys3(libc::SYS_rmdir, a as usize, 0, 0));
change!(mkdir, "mkdir", (a: *const c_char, m: u32), a, None, &[MKDIR_ERR],
    raw::sys3(libc::SYS_mkdir, a as usize, m as usize, 0));
change!(truncate64, "truncate", (a: *const c_char, n: i64), a, None, &[WRITE_EIO],
    raw::sys3(libc::SYS_truncate, a as usize, n as usize, 0));
change!(chmod, "chmod", (a: *const c_char, m: u32), a, None, &[],
    raw::sys3(libc::SYS_chmod, a as usize, m as usize, 0));

unsafe fn fd_op(fd: c_int, what: &str, want: &[u32], real: impl FnOnce() -> isize) -> c_int {
    if !live() {
        return ret(real()) as c_int;
    }
    let _g = enter();
    let s = sim();
    if let Some(FdObj::File { path, .. }) = s.fs.fds.get(&fd) {
        let path = path.clone();
        s.fs_point(what, &path);
        if let Some((k, _)) = s.fs_fault(what, &path, want) {
            let _ = k;
            return ret(-(libc::EIO as isize)) as c_int;
        }
    }
    ret(real()) as c_int
}
unsafe fn sync_op(fd: c_int, real: impl FnOnce() -> isize) -> c_int {
    let simulated = live();
    fd_op(fd, "fsync", &[FSYNC_ERR], || {
        if simulated {
            // the disk is simulated
            sim().synced(fd);
            return 0;
        }
        real()
    })
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_op(fd, || raw::sys3(libc::SYS_fsync, fd as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_op(fd, || raw::sys3(libc::SYS_fdatasync, fd as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    fd_op(fd, "truncate", &[WRITE_EIO], || raw::sys3(libc::SYS_ftruncate, fd as usize, n as usize, 0))
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: size_t, f: u32) -> ssize_t {
    if live() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw::sys6(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, f as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if live() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw::sys4(libc::SYS_sendfile, a as usize, b as usize, o as usize, n))
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    fd_op(fd, "flock", &[], || raw::sys3(libc::SYS_flock, fd as usize, op as usize, 0))
}

// ---- directories -----------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    let real = real!("opendir", fn(*const c_char) -> *mut libc::DIR);
    if !live() {
        return real(p);
    }
    let _g = enter();
    let s = sim();
    let Ok(rel) = s.rel(p) else { return real(p) };
    s.fs_point("opendir", &rel);
    if let Some((_, x)) = s.fs_fault("opendir", &rel, &[DIR_ERR]) {
        set_errno([libc::EIO, libc::EACCES, libc::EMFILE][x as usize % 3]);
        return std::ptr::null_mut();
    }
    let d = real(p);
    if !d.is_null() {
        let rd = real!("readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64);
        fs::dir_entries(d as usize, &rel, || rd(d));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let real = real!("readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64);
    if !live() {
        return real(d);
    }
    let _g = enter();
    let s = sim();
    match s.fs.dirs.get_mut(&(d as usize)) {
        None => real(d),
        Some(o) => {
            if o.fail_at == Some(o.pos) {
                o.fail_at = None;
                set_errno(libc::EIO);
                return std::ptr::null_mut();
            }
            match o.entries.get_mut(o.pos) {
                Some(e) => {
                    o.pos += 1;
                    &mut **e
                }
                None => std::ptr::null_mut(),
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let real = real!("closedir", fn(*mut libc::DIR) -> c_int);
    if live() {
        let _g = enter();
        sim().fs.dirs.remove(&(d as usize));
        return real(d);
    }
    real(d)
}

// ---- sockets ---------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_socket, d as usize, t as usize, p as usize)) as c_int;
    }
    let _g = enter();
    ret(net::socket(d, t)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, l: u32) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_connect, fd as usize, a as usize, l as usize)) as c_int;
    }
    let _g = enter();
    ret(net::connect(fd, a as *const libc::sockaddr_in)) as c_int
}
macro_rules! denied { ($($name:ident ( $($a:ident),* ) $nr:expr;)*) => { $(
    #[no_mangle]
    pub unsafe extern "C" fn $name($($a: usize),*) -> isize {
        if live() { set_errno(libc::EPERM); return -1; }
        let v = [$($a),*];
        let g = |i: usize| v.get(i).copied().unwrap_or(0);
        ret(raw::sys6($nr, g(0), g(1), g(2), g(3), g(4), g(5)))
    } )* } }
denied! {
    bind(a, b, c) libc::SYS_bind;
    listen(a, b) libc::SYS_listen;
    accept4(a, b, c, d) libc::SYS_accept4;
    accept(a, b, c) libc::SYS_accept;
    sendto(a, b, c, d, e, f) libc::SYS_sendto;
    recvfrom(a, b, c, d, e, f) libc::SYS_recvfrom;
    sendmsg(a, b, c) libc::SYS_sendmsg;
    recvmsg(a, b, c) libc::SYS_recvmsg;
    kill(a, b) libc::SYS_kill;
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if !live() {
        return ret(raw::sys6(libc::SYS_recvfrom, fd as usize, buf as usize, n, fl as usize, 0, 0));
    }
    let _g = enter();
    ret(net::recv(fd, &[(buf as usize, n)], fl & libc::MSG_PEEK != 0))
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if !live() {
        return ret(raw::sys6(libc::SYS_sendto, fd as usize, buf as usize, n, fl as usize, 0, 0));
    }
    let _g = enter();
    ret(net::send(fd, &[(buf as usize, n)]))
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_shutdown, fd as usize, how as usize, 0)) as c_int;
    }
    let _g = enter();
    let s = sim();
    s.point(300);
    if let Some(i) = net::sock_of(s, fd) {
        net::shutdown(s, i);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: u32) -> c_int {
    if live() && net::sock_of(sim(), fd).is_some() {
        return 0;
    }
    ret(raw::sys6(libc::SYS_setsockopt, fd as usize, l as usize, o as usize, v as usize, n as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut u32) -> c_int {
    if live() {
        if let Some(i) = net::sock_of(sim(), fd) {
            let val = if l == libc::SOL_SOCKET && o == libc::SO_ERROR {
                net::take_error(sim(), i)
            } else if l == libc::SOL_SOCKET && o == libc::SO_TYPE {
                libc::SOCK_STREAM
            } else {
                0
            };
            if !n.is_null() && *n >= 4 {
                *(v as *mut c_int) = val;
                *n = 4;
            }
            return 0;
        }
    }
    ret(raw::sys6(libc::SYS_getsockopt, fd as usize, l as usize, o as usize, v as usize, n as usize, 0)) as c_int
}
unsafe fn fill_addr(a: *mut libc::sockaddr, l: *mut u32, ip: u32, port: u16) {
    let mut sa: libc::sockaddr_in = std::mem::zeroed();
    sa.sin_family = libc::AF_INET as u16;
    sa.sin_port = port.to_be();
    sa.sin_addr.s_addr = ip.to_be();
    let n = (*l as usize).min(16);
    std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, a as *mut u8, n);
    *l = 16;
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if live() {
        if let Some(i) = net::sock_of(sim(), fd) {
            return match net::peer(sim(), i) {
                Some((ip, port)) => {
                    fill_addr(a, l, ip, port);
                    0
                }
                None => {
                    set_errno(libc::ENOTCONN);
                    -1
                }
            };
        }
    }
    ret(raw::sys3(libc::SYS_getpeername, fd as usize, a as usize, l as usize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if live() && net::sock_of(sim(), fd).is_some() {
        fill_addr(a, l, 0x0a0000fe, 40000);
        return 0;
    }
    ret(raw::sys3(libc::SYS_getsockname, fd as usize, a as usize, l as usize)) as c_int
}
fn is_sim_fd(fd: c_int) -> bool {
    matches!(sim().fs.fds.get(&fd), Some(FdObj::Sock(_)) | Some(FdObj::Epoll(_)) | Some(FdObj::EventFd(_)))
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if live() && is_sim_fd(fd) {
        let _g = enter();
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(net::dup(sim(), fd)) as c_int,
            libc::F_GETFL => libc::O_RDWR | libc::O_NONBLOCK,
            libc::F_GETFD => libc::FD_CLOEXEC,
            _ => 0,
        };
    }
    ret(raw::sys3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: usize) -> c_int {
    if live() && is_sim_fd(fd) {
        return 0;
    }
    ret(raw::sys3(libc::SYS_ioctl, fd as usize, req as usize, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_epoll_create1, fl as usize, 0, 0)) as c_int;
    }
    let _g = enter();
    ret(net::epoll_create()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !live() {
        return ret(raw::sys4(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize)) as c_int;
    }
    let _g = enter();
    ret(net::epoll_ctl(ep, op, fd, ev)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, n: c_int, t: c_int) -> c_int {
    if !live() {
        return ret(raw::sys4(libc::SYS_epoll_wait, ep as usize, ev as usize, n as usize, t as usize)) as c_int;
    }
    let _g = enter();
    ret(net::epoll_wait(ep, ev, n, t)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: u32, fl: c_int) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_eventfd2, init as usize, fl as usize, 0)) as c_int;
    }
    let _g = enter();
    ret(net::eventfd(init as u64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const c_char,
    service: *const c_char,
    hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> c_int {
    if !live() {
        return real!("getaddrinfo", fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int)(node, service, hints, res);
    }
    let _g = enter();
    let name = std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned();
    match net::resolve(&name) {
        Err(e) => e,
        Ok(ip) => {
            let mut sa: libc::sockaddr_in = std::mem::zeroed();
            sa.sin_family = libc::AF_INET as u16;
            sa.sin_addr.s_addr = ip.to_be();
            let sa = Box::leak(Box::new(sa));
            let mut ai: libc::addrinfo = std::mem::zeroed();
            ai.ai_family = libc::AF_INET;
            ai.ai_socktype = libc::SOCK_STREAM;
            ai.ai_addrlen = 16;
            ai.ai_addr = sa as *mut _ as *mut libc::sockaddr;
            *res = Box::leak(Box::new(ai));
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut libc::addrinfo) {
    if !live() {
        real!("freeaddrinfo", fn(*mut libc::addrinfo) -> ())(res)
    }
}

// ---- time ------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if !ACTIVE.load(Ordering::Relaxed) || TID.with(|t| t.get()) < 0 {
        return ret(raw::sys3(libc::SYS_clock_gettime, clk as usize, ts as usize, 0)) as c_int;
    }
    let s = sim();
    s.vtime += 100;
    let now = if s.cfg.frozen { 1_000_000_000 } else { s.vtime };
    let t = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        s.wall_off + now as i64
    } else {
        now as i64
    };
    (*ts).tv_sec = t.div_euclid(1_000_000_000);
    (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_nanosleep, req as usize, rem as usize, 0)) as c_int;
    }
    let _g = enter();
    let s = sim();
    let d = s.vtime + (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    s.block(Wait::Sleep, Some(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, fl: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !live() {
        return -(raw::sys4(libc::SYS_clock_nanosleep, clk as usize, fl as usize, req as usize, rem as usize) as c_int);
    }
    let _g = enter();
    let s = sim();
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let d = if fl & libc::TIMER_ABSTIME != 0 { t } else { s.vtime + t };
    s.block(Wait::Sleep, Some(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !live() {
        return ret(raw::sys3(libc::SYS_sched_yield, 0, 0, 0)) as c_int;
    }
    let _g = enter();
    sim().yield_now();
    0
}

// ---- threads ---------------------------------------------------------------
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
    word: &'static AtomicU32,
}
static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
thread_local! { static DTORS: Cell<u32> = const { Cell::new(0) }; }

/// Runs after all thread local destructors: only then is the thread gone for the scheduler.
unsafe extern "C" fn last_dtor(p: *mut c_void) {
    let n = DTORS.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    if n < 3 {
        libc::pthread_setspecific(KEY.load(Ordering::Relaxed), p);
        return;
    }
    INSIDE.with(|i| i.set(1000));
    sim().exit_thread();
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    TID.with(|t| t.set(st.tid as i32));
    raw::wait_word(st.word);
    unsafe {
        libc::pthread_setspecific(KEY.load(Ordering::Relaxed), 1 as *mut c_void);
    }
    let (f, arg) = (st.f, st.arg);
    drop(st);
    f(arg)
}
type PthreadCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
unsafe fn real_pthread_create() -> PthreadCreate {
    real!("pthread_create", fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = real_pthread_create();
    if !live() {
        return real(t, attr, f, arg);
    }
    let _g = enter();
    let s = sim();
    let (tid, word) = s.new_thread();
    let st = Box::into_raw(Box::new(Start { f, arg, tid, word }));
    let r = real(t, attr, tramp, st as *mut c_void);
    if r != 0 {
        s.drop_last_thread();
        return r;
    }
    s.pthreads.insert(*t as usize, tid);
    s.point(5000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real = real!("pthread_join", fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if !live() {
        return real(t, out);
    }
    let _g = enter();
    let s = sim();
    if let Some(tid) = s.pthreads.get(&(t as usize)).copied() {
        s.point(500);
        while !s.exited(tid) {
            s.block(Wait::Join(tid), None);
        }
    }
    real(t, out)
}
/// Start the first simulated thread and wait for the end of the process.
pub unsafe fn run_main(f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> ! {
    let mut key = 0;
    libc::pthread_key_create(&mut key, Some(last_dtor));
    KEY.store(key, Ordering::SeqCst);
    let (tid, word) = sim().new_thread();
    let st = Box::into_raw(Box::new(Start { f, arg, tid, word }));
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    // the usual size of a main thread's stack
    libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
    let mut t: libc::pthread_t = 0;
    let r = real_pthread_create()(&mut t, &attr, tramp, st as *mut c_void);
    assert_eq!(r, 0);
    ACTIVE.store(true, Ordering::SeqCst);
    raw::post_word(word);
    loop {
        raw::sys3(libc::SYS_pause, 0, 0, 0);
    }
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, bits: u32) -> isize {
    let s = sim();
    match op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            s.point(200);
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as isize);
            }
            let abs = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) == libc::FUTEX_WAIT_BITSET;
            let deadline = if ts.is_null() {
                None
            } else {
                let t = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
                Some(if abs {
                    if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                        (t as i64 - s.wall_off).max(0) as u64
                    } else {
                        t
                    }
                } else {
                    s.vtime.saturating_add(t)
                })
            };
            if s.cfg.spurious && s.choose(N, 2, 1, 50) == 1 {
                s.count(SPURIOUS);
                return 0;
            }
            let m = if abs { bits } else { u32::MAX };
            if s.block(Wait::Futex(addr, m), deadline) {
                -(libc::ETIMEDOUT as isize)
            } else {
                0
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bitset = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) == libc::FUTEX_WAKE_BITSET;
            let m = if bitset { bits } else { u32::MAX };
            let n = s.wake(|w| matches!(w, Wait::Futex(a, b) if *a == addr && b & m != 0), val as i32 as usize & 0x7fffffff);
            s.point(200);
            n as isize
        }
        _ => -(libc::ENOSYS as isize),
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom && ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) >= 0 {
        random(a as *mut u8, b);
        return b as i64;
    }
    if !live() {
        return ret(raw::sys6(n, a, b, c, d, e, f)) as i64;
    }
    let _g = enter();
    match n {
        libc::SYS_futex => ret(futex(a, b as i32, c as u32, d as *const libc::timespec, f as u32)) as i64,
        libc::SYS_statx => statx_live(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut c_void) as i64,
        libc::SYS_copy_file_range => {
            set_errno(libc::ENOSYS);
            -1
        }
        _ => ret(raw::sys6(n, a, b, c, d, e, f)) as i64,
    }
}
unsafe fn statx_live(d: c_int, p: *const c_char, fl: c_int, mask: u32, b: *mut c_void) -> c_int {
    let real = || raw::sys6(libc::SYS_statx, d as usize, p as usize, fl as usize, mask as usize, b as usize, 0);
    if *p == 0 {
        return ret(real()) as c_int;
    }
    ret(fs::path_op("stat", p, None, false, &[STAT_ERR], real)) as c_int
}

// ---- randomness and environment ---------------------------------------------
unsafe fn random(p: *mut u8, n: usize) {
    let s = sim();
    for i in 0..n {
        *p.add(i) = s.rnd.next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if !ACTIVE.load(Ordering::Relaxed) || TID.with(|t| t.get()) < 0 {
        return ret(raw::sys3(libc::SYS_getrandom, p as usize, n, fl as usize));
    }
    random(p as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if !live() {
        return raw::sys3(libc::SYS_getpid, 0, 0, 0) as c_int;
    }
    sim().cfg.pid
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if !live() {
        let mut t: libc::termios = std::mem::zeroed();
        return (raw::sys3(libc::SYS_ioctl, fd as usize, libc::TCGETS as usize, &mut t as *mut _ as usize) == 0) as c_int;
    }
    (sim().cfg.tty && fd < 3) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, set: *mut c_void) -> c_int {
    if !live() {
        let r = ret(raw::sys3(libc::SYS_sched_getaffinity, pid as usize, n, set as usize));
        return if r < 0 { -1 } else { 0 };
    }
    std::ptr::write_bytes(set as *mut u8, 0, n);
    for i in 0..sim().cfg.ncpu.min(n * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if live() {
        let _g = enter();
        finish(ST_EXIT, code)
    }
    let r = real!("exit", fn(c_int) -> ());
    r(code);
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if live() {
        let _g = enter();
        finish(ST_EXIT, code)
    }
    raw::exit_group(code)
}

/// Referenced by the driver so that the linker takes these symbols.
pub fn anchor() -> usize {
    let v: [usize; 8] = [
        open64 as *const () as usize,
        read as *const () as usize,
        syscall as *const () as usize,
        pthread_create as *const () as usize,
        epoll_wait as *const () as usize,
        clock_gettime as *const () as usize,
        getrandom as *const () as usize,
        __sanitizer_cov_trace_pc_guard as *const () as usize,
    ];
    v.iter().fold(0, |a, b| a ^ b)
}

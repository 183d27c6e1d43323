//! The simulator that lives inside one simulated process: scheduler, virtual time, choice streams.
use crate::net::Net;
use crate::raw;
use crate::rng::{mix, Rng};
use crate::shm::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

pub const F: u32 = 0; // faults
pub const S: u32 = 1; // scheduling at intercepted calls
pub const N: u32 = 2; // benign environment variation: delays, segmentation, orders
pub const P: u32 = 3; // preemption at code edges
pub const T: u32 = 4; // turns between simulated processes

macro_rules! kinds { ($($id:ident = $n:expr, $name:expr, $harm:expr;)*) => {
    $(pub const $id: u32 = $n;)*
    pub const KINDS: &[(u32, &str, bool)] = &[$(($n, $name, $harm)),*];
}}
kinds! {
    READ_SHORT = 0, "short_read", false;
    READ_EINTR = 1, "read_interrupted", false;
    READ_EIO = 2, "read_io_error", true;
    OPEN_EACCES = 3, "open_permission_denied", true;
    OPEN_EMFILE = 4, "open_too_many_files", true;
    OPEN_EIO = 5, "open_io_error", true;
    OPEN_ENOENT = 6, "file_vanished_before_open", true;
    WRITE_ENOSPC = 7, "write_no_space", true;
    WRITE_EIO = 8, "write_io_error", true;
    WRITE_SHORT = 9, "short_write", false;
    WRITE_EINTR = 10, "write_interrupted", false;
    CRASH = 11, "crash", true;
    CRASH_TORN = 12, "crash_in_mid_write", true;
    DISK_FULL = 13, "disk_full_from_here_on", true;
    MKDIR_ERR = 14, "mkdir_error", true;
    RENAME_ERR = 15, "rename_error", true;
    UNLINK_ERR = 16, "unlink_error", true;
    DIR_ERR = 17, "directory_error", true;
    DIR_ORDER = 18, "directory_order_permuted", false;
    STAT_ERR = 19, "stat_error", true;
    SPURIOUS = 20, "spurious_wakeup", false;
    CLOCK_JUMP = 21, "clock_jump", false;
    FSYNC_ERR = 22, "fsync_error", true;
    POWER_LOSS = 23, "power_loss", true;
    POWER_HOLES = 39, "power_loss_leaves_holes", false;
    CONN_REFUSED = 24, "connection_refused", true;
    CONN_TIMEOUT = 25, "connection_never_established", true;
    RESET_EARLY = 26, "reset_before_answer", true;
    RESET_MID = 27, "reset_in_mid_body", true;
    TRUNC = 28, "body_cut_short", true;
    STALL_HEAD = 29, "server_never_answers", true;
    STALL_MID = 30, "server_stalls_in_mid_body", true;
    HTTP_5XX = 31, "http_5xx", true;
    HTTP_4XX = 32, "http_4xx", true;
    GARBAGE = 33, "answer_is_not_http", true;
    BAD_GZIP = 34, "corrupt_content_encoding", true;
    DNS_FAIL = 35, "name_resolution_failure", true;
    HTTP_BUSY = 36, "http_busy", true;
    NET_SEG = 37, "answer_segmented_and_delayed", false;
    SLOW = 38, "slow_answer", false;
    RD_ERR = 40, "reader_error", true;
    RD_EINTR = 41, "reader_interrupted", false;
    RD_SHORT = 42, "reader_short_read", false;
    RD_GROW = 43, "reader_resumes_after_end", false;
    MUT_TRUNC = 44, "stored_file_truncated", true;
    MUT_FLIP = 45, "stored_file_bit_flipped", true;
    MUT_JUNK = 46, "stored_file_overwritten", true;
    PREEMPT = 47, "preemption_at_code_edge", false;
    PSWITCH = 48, "process_switch_at_file_operation", false;
    RESTART = 49, "process_restart", false;
    HTTP_WRONG = 50, "something_else_with_status_200", true;
}
pub fn kind_name(k: u32) -> &'static str {
    KINDS.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or("?")
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// run the current thread until it blocks
    RunToBlock,
    /// switch with probability num/den at every intercepted call
    Random(u64, u64),
    /// always move on to the next thread
    RoundRobin,
    /// random priorities, lowered at random points (PCT)
    Pct(u32),
}

#[derive(Clone, Debug, Default)]
pub struct FaultPlan {
    /// inject at each eligible operation with probability 1/rate (0: never)
    pub rate: u64,
    /// inject at this eligible operation
    pub single_at: Option<u64>,
    pub max: u32,
}

#[derive(Clone, Debug)]
pub struct Scope {
    /// path prefix relative to the scratch directory
    pub prefix: String,
    pub kinds: Vec<u32>,
}

#[derive(Clone)]
pub struct Cfg {
    pub seed: u64,
    pub rseed: u64,
    pub replay: Option<Vec<Rec>>,
    pub policy: Policy,
    pub preempt_gap: u64,
    pub faults: FaultPlan,
    pub scopes: Vec<Scope>,
    pub net_kinds: Vec<u32>,
    pub scratch: String,
    pub ncpu: usize,
    pub pid: i32,
    pub wall_base: i64,
    pub frozen: bool,
    pub tty: bool,
    pub cap_vtime: u64,
    pub cap_edges: u64,
    pub cap_steps: u64,
    /// vary segmentation, delays and orders
    pub vary: bool,
    pub spurious: bool,
    pub turn: Option<(&'static Turn, u32)>,
    pub turn_den: u64,
    pub trace: bool,
    pub env: Vec<(String, String)>,
    pub rlimit_as: Option<u64>,
    pub args: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    None,
    Futex(usize, u32),
    Join(usize),
    Sleep,
    Epoll(usize),
    Exited,
}

struct Thr {
    word: &'static AtomicU32,
    wait: Wait,
    deadline: Option<u64>,
    timed_out: bool,
    prio: u64,
}

pub struct Event {
    pub at: u64,
    pub seq: u64,
    pub ev: crate::net::Ev,
}
impl PartialEq for Event {
    fn eq(&self, o: &Event) -> bool {
        self.seq == o.seq
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Event) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Event) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct Sim {
    pub cfg: Cfg,
    pub shm: &'static Shm,
    thr: Vec<Thr>,
    cur: usize,
    pub vtime: u64,
    pub wall_off: i64,
    steps: u64,
    switches: u64,
    hash: u64,
    idx: [u64; 5],
    rng: [Rng; 5],
    pub rnd: Rng,
    replay: Option<HashMap<(u32, u64), u32>>,
    replay_p: Vec<(u64, u32)>,
    replay_p_pos: usize,
    next_p: u64,
    next_tick: u64,
    nfaults: u32,
    last_switch_edge: u64,
    last_check_edge: u64,
    heap: BinaryHeap<Event>,
    seq: u64,
    pub net: Net,
    pub fs: crate::fs::Fs,
    pub pthreads: BTreeMap<usize, usize>,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SIM: *mut Sim = std::ptr::null_mut();
static EDGES: AtomicU64 = AtomicU64::new(0);
static NEXT_CHECK: AtomicU64 = AtomicU64::new(u64::MAX);
static mut COVP: *mut u8 = std::ptr::null_mut();

thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static INSIDE: Cell<u32> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
/// Is this call made by simulated code (not by the harness or the simulator itself)?
#[inline]
pub fn live() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) >= 0 && INSIDE.with(|i| i.get()) == 0
}
pub struct Guard;
pub fn enter() -> Guard {
    INSIDE.with(|i| i.set(i.get() + 1));
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}

pub fn install(cfg: Cfg, shm: &'static Shm, net: Net) {
    let replay = cfg.replay.as_ref().map(|v| v.iter().map(|r| ((r.stream, r.idx), r.val)).collect());
    let mut replay_p: Vec<(u64, u32)> = cfg
        .replay
        .as_ref()
        .map(|v| v.iter().filter(|r| r.stream == P).map(|r| (r.idx, r.val)).collect())
        .unwrap_or_default();
    replay_p.sort();
    let rng = [0, 1, 2, 3, 4].map(|i| Rng::new(mix(cfg.seed, 1000 + i)));
    let s = Box::new(Sim {
        rnd: Rng::new(cfg.rseed),
        shm,
        thr: Vec::new(),
        cur: 0,
        vtime: 1_000_000_000,
        wall_off: cfg.wall_base * 1_000_000_000,
        steps: 0,
        switches: 0,
        hash: 0,
        idx: [0; 5],
        rng,
        replay,
        replay_p,
        replay_p_pos: 0,
        next_p: u64::MAX,
        next_tick: 4096,
        nfaults: 0,
        last_switch_edge: 0,
        last_check_edge: 0,
        heap: BinaryHeap::new(),
        seq: 0,
        net,
        fs: crate::fs::Fs::default(),
        pthreads: BTreeMap::new(),
        cfg,
    });
    unsafe {
        SIM = Box::into_raw(s);
        COVP = shm.cov.as_ptr() as *mut u8;
    }
    EDGES.store(0, Ordering::SeqCst);
    crate::alloc::restart();
    sim().arm(0);
}

pub fn finish(status: u32, code: i32) -> ! {
    let s = sim();
    s.shm.vtime.store(s.vtime, Ordering::SeqCst);
    s.shm.edges.store(EDGES.load(Ordering::Relaxed), Ordering::SeqCst);
    s.shm.steps.store(s.steps, Ordering::SeqCst);
    s.shm.switches.store(s.switches, Ordering::SeqCst);
    s.shm.schedhash.store(s.hash, Ordering::SeqCst);
    s.shm.peak.store(crate::alloc::peak(), Ordering::SeqCst);
    s.shm.threads.store(s.thr.len() as u32, Ordering::SeqCst);
    s.shm.code.store(code, Ordering::SeqCst);
    s.shm.status.store(status, Ordering::SeqCst);
    if let Some((t, me)) = s.cfg.turn {
        // hand over while holding the turn, so that the other process learns of the end at a fixed point
        crate::fs::wait_turn(t, me);
        t.done[me as usize].store(1, Ordering::SeqCst);
        t.turn.store(1 - me, Ordering::SeqCst);
        raw::futex_wake(&t.turn);
    }
    raw::exit_group(0)
}

impl Sim {
    // ---- choice streams -------------------------------------------------
    fn put(&mut self, stream: u32, idx: u64, val: u32) {
        if val != 0 {
            self.shm.record(Rec { stream, idx, val });
        }
    }
    /// A choice in 0..n where 0 is the default, taken with probability 1 - num/den.
    pub fn choose(&mut self, stream: u32, n: u32, num: u64, den: u64) -> u32 {
        let i = self.idx[stream as usize];
        self.idx[stream as usize] += 1;
        if n < 2 {
            return 0;
        }
        let v = match &self.replay {
            Some(m) => m.get(&(stream, i)).copied().unwrap_or(0) % n,
            None => {
                let room = self.shm.room(0);
                let r = &mut self.rng[stream as usize];
                // (what can not be recorded is not done)
                if room && num > 0 && r.chance(num, den) {
                    1 + r.below(n as u64 - 1) as u32
                } else {
                    0
                }
            }
        };
        self.put(stream, i, v);
        v
    }
    /// A fault out of the given kinds, or none. The second value is a free parameter.
    pub fn fault(&mut self, kinds: &[u32]) -> Option<(u32, u32)> {
        if kinds.is_empty() {
            return None;
        }
        let i = self.idx[F as usize];
        self.idx[F as usize] += 1;
        let span = kinds.len() as u64 * 4096;
        let v = match &self.replay {
            Some(m) => m.get(&(F, i)).copied().unwrap_or(0),
            None => {
                let p = &self.cfg.faults;
                let r = &mut self.rng[F as usize];
                let hit = self.nfaults < p.max
                    && (p.single_at == Some(i) || (p.rate > 0 && r.chance(1, p.rate)));
                if hit {
                    1 + r.below(span) as u32
                } else {
                    0
                }
            }
        };
        if v == 0 {
            return None;
        }
        self.put(F, i, v);
        self.nfaults += 1;
        let v = v - 1;
        Some((kinds[v as usize % kinds.len()], v / kinds.len() as u32))
    }
    pub fn count(&mut self, kind: u32) {
        self.shm.counts[kind as usize].fetch_add(1, Ordering::Relaxed);
    }
    /// Record an injected fault: counted, and kept as an event for the oracle and the replay trace.
    pub fn injected(&mut self, kind: u32, what: &str) {
        self.count(kind);
        let s = format!("{}\t{}\t{}\t{}\n", kind, self.vtime, self.cur, what.replace(['\n', '\t'], " "));
        self.shm.events.append(s.as_bytes());
    }
    pub fn trace(&mut self, what: &str) {
        if self.cfg.trace {
            let s = format!("{} t{} {}\n", self.vtime, self.cur, what.replace('\n', " "));
            self.shm.trace.append(s.as_bytes());
        }
    }

    // ---- events ---------------------------------------------------------
    pub fn after(&mut self, delay: u64, ev: crate::net::Ev) {
        self.seq += 1;
        let e = Event { at: self.vtime + delay, seq: self.seq, ev };
        self.heap.push(e);
    }
    fn fire_due(&mut self) {
        while let Some(e) = self.heap.peek() {
            if e.at > self.vtime {
                break;
            }
            let e = self.heap.pop().unwrap();
            crate::net::fire(self, e.ev);
        }
        for t in self.thr.iter_mut() {
            if let Some(d) = t.deadline {
                if d <= self.vtime && t.wait != Wait::None && t.wait != Wait::Exited {
                    t.wait = Wait::None;
                    t.deadline = None;
                    t.timed_out = true;
                }
            }
        }
    }
    fn next_time(&self) -> Option<u64> {
        let a = self.heap.peek().map(|e| e.at);
        let b = self
            .thr
            .iter()
            .filter(|t| t.wait != Wait::None && t.wait != Wait::Exited)
            .filter_map(|t| t.deadline)
            .min();
        match (a, b) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        }
    }

    // ---- scheduling -----------------------------------------------------
    /// Runnable threads in default order: the current one first, then cyclic.
    fn runnable(&self) -> Vec<usize> {
        let n = self.thr.len();
        (0..n).map(|i| (self.cur + i) % n).filter(|i| self.thr[*i].wait == Wait::None).collect()
    }
    fn decide(&mut self, list: &[usize], can_stay: bool) -> usize {
        let n = list.len() as u32;
        if n < 2 {
            return 0;
        }
        let i = self.idx[S as usize];
        let v = if let Some(m) = &self.replay {
            m.get(&(S, i)).copied().unwrap_or(0) % n
        } else {
            match self.cfg.policy {
                Policy::RunToBlock => 0,
                Policy::Random(num, den) => {
                    if !can_stay {
                        self.rng[S as usize].below(n as u64) as u32
                    } else if self.rng[S as usize].chance(num, den) {
                        1 + self.rng[S as usize].below(n as u64 - 1) as u32
                    } else {
                        0
                    }
                }
                Policy::RoundRobin => can_stay as u32,
                Policy::Pct(_) => {
                    if self.rng[S as usize].chance(1, 400) {
                        let low = self.thr.iter().map(|t| t.prio).min().unwrap_or(0);
                        let c = self.cur;
                        self.thr[c].prio = low.saturating_sub(1);
                    }
                    let mut best = 0;
                    for (k, t) in list.iter().enumerate() {
                        if self.thr[*t].prio > self.thr[list[best]].prio {
                            best = k;
                        }
                    }
                    best as u32
                }
            }
        };
        self.idx[S as usize] += 1;
        self.put(S, i, v);
        v as usize
    }
    fn check_caps(&mut self) {
        self.steps += 1;
        if self.vtime > self.cfg.cap_vtime || self.steps > self.cfg.cap_steps {
            finish(ST_HANG, 0)
        }
    }
    /// A scheduling point: an intercepted call that costs `cost` ns of virtual time.
    pub fn point(&mut self, cost: u64) {
        self.vtime += cost;
        self.fire_due();
        self.check_caps();
        let list = self.runnable();
        if list.len() > 1 {
            let k = self.decide(&list, true);
            self.switch(list[k], 1);
        }
    }
    pub fn yield_now(&mut self) {
        self.vtime += 1000;
        self.fire_due();
        self.check_caps();
        let mut list = self.runnable();
        if list.len() > 1 {
            list.remove(0);
            let k = self.decide(&list, false);
            self.switch(list[k], 2);
        } else if let Some(t) = self.next_time() {
            // a spinning thread waits for something that is not there yet: let time pass
            self.vtime = self.vtime.max(t.min(self.vtime + 50_000));
            self.fire_due();
        }
    }
    fn switch(&mut self, to: usize, site: u64) {
        let me = self.cur;
        if to == me {
            return;
        }
        self.switches += 1;
        self.last_switch_edge = EDGES.load(Ordering::Relaxed);
        self.hash = mix(self.hash, (to as u64) << 32 | (me as u64) << 16 | site);
        self.cur = to;
        let w = self.thr[me].word;
        raw::post_word(self.thr[to].word);
        raw::wait_word(w);
    }
    /// Block the current thread. True when the wait ended by its deadline.
    pub fn block(&mut self, wait: Wait, deadline: Option<u64>) -> bool {
        let me = self.cur;
        self.thr[me].wait = wait;
        self.thr[me].deadline = deadline;
        self.thr[me].timed_out = false;
        self.dispatch(true);
        let t = &mut self.thr[me];
        t.deadline = None;
        std::mem::replace(&mut t.timed_out, false)
    }
    fn dispatch(&mut self, come_back: bool) {
        loop {
            self.fire_due();
            self.check_caps();
            let list = self.runnable();
            if list.is_empty() {
                match self.next_time() {
                    Some(t) => {
                        self.vtime = self.vtime.max(t);
                        continue;
                    }
                    None => finish(ST_DEADLOCK, 0),
                }
            }
            let k = self.decide(&list, false);
            let to = list[k];
            if come_back {
                self.switch(to, 3);
            } else {
                self.switches += 1;
                self.hash = mix(self.hash, (to as u64) << 32 | 4);
                self.cur = to;
                raw::post_word(self.thr[to].word);
            }
            return;
        }
    }
    pub fn wake(&mut self, mut pred: impl FnMut(&Wait) -> bool, max: usize) -> usize {
        let mut ready: Vec<usize> =
            (0..self.thr.len()).filter(|i| pred(&self.thr[*i].wait)).collect();
        let mut n = 0;
        while n < max && !ready.is_empty() {
            // which waiter is woken is a scheduling choice
            let k = if ready.len() > max - n { self.choose(S, ready.len() as u32, 1, 4) as usize } else { 0 };
            let i = ready.remove(k);
            self.thr[i].wait = Wait::None;
            self.thr[i].deadline = None;
            self.thr[i].timed_out = false;
            n += 1;
        }
        n
    }
    pub fn new_thread(&mut self) -> (usize, &'static AtomicU32) {
        let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
        let prio = 1_000_000 + self.rng[S as usize].below(1_000_000);
        self.thr.push(Thr { word, wait: Wait::None, deadline: None, timed_out: false, prio });
        (self.thr.len() - 1, word)
    }
    pub fn drop_last_thread(&mut self) {
        let n = self.thr.len() - 1;
        self.thr[n].wait = Wait::Exited;
    }
    pub fn exited(&self, tid: usize) -> bool {
        self.thr[tid].wait == Wait::Exited
    }
    pub fn exit_thread(&mut self) {
        let me = self.cur;
        self.thr[me].wait = Wait::Exited;
        self.thr[me].deadline = None;
        self.wake(|w| *w == Wait::Join(me), usize::MAX);
        self.dispatch(false);
    }
    pub fn tid(&self) -> usize {
        self.cur
    }

    // ---- code edges -----------------------------------------------------
    fn arm(&mut self, e: u64) {
        self.next_p = if self.replay.is_some() {
            self.replay_p.get(self.replay_p_pos).map(|x| x.0).unwrap_or(u64::MAX)
        } else if self.cfg.preempt_gap > 0 && self.shm.room(crate::shm::MAXREC / 2) {
            let g = self.cfg.preempt_gap;
            let r = &mut self.rng[P as usize];
            e + 1 + r.below(g) + if r.chance(1, 4) { r.below(4 * g) } else { 0 }
        } else {
            u64::MAX
        };
        NEXT_CHECK.store(self.next_p.min(self.next_tick), Ordering::Relaxed);
    }
}

#[cold]
fn edge_slow(e: u64) {
    if !live() {
        NEXT_CHECK.store(e + 1, Ordering::Relaxed);
        return;
    }
    let _g = enter();
    let s = sim();
    if e >= s.next_tick {
        if e > s.cfg.cap_edges {
            finish(ST_HANG, 1)
        }
        s.vtime += (e - s.last_check_edge) * 16;
        s.last_check_edge = e;
        s.next_tick = e + 4096;
        s.fire_due();
    }
    let list = s.runnable();
    if e >= s.next_p {
        let v = if s.replay.is_some() {
            let v = s.replay_p[s.replay_p_pos].1;
            s.replay_p_pos += 1;
            v
        } else if list.len() > 1 {
            1 + s.rng[P as usize].below(list.len() as u64 - 1) as u32
        } else {
            0
        };
        // arm before switching: the next thread runs with the new mark
        s.arm(e);
        if v > 0 && list.len() > 1 {
            s.put(P, e, v);
            s.count(PREEMPT);
            let to = list[v as usize % list.len()];
            s.switch(to, 5 | e << 8);
            return;
        }
    }
    NEXT_CHECK.store(s.next_p.min(s.next_tick), Ordering::Relaxed);
    if list.len() > 1 && e - s.last_switch_edge > 60_000 {
        // nobody may spin forever while others could run
        s.switch(list[1], 6);
    }
}

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let e = EDGES.load(Ordering::Relaxed) + 1;
    EDGES.store(e, Ordering::Relaxed);
    *COVP.add((*g as usize) & (COV - 1)) = 1;
    if e >= NEXT_CHECK.load(Ordering::Relaxed) {
        edge_slow(e);
    }
}
/// # Safety
/// Called at start-up for every instrumented object.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    static NEXT: AtomicU32 = AtomicU32::new(1);
    let mut p = s;
    if p == e || *p != 0 {
        return;
    }
    while p < e {
        *p = NEXT.fetch_add(1, Ordering::Relaxed);
        p = p.add(1);
    }
}

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! A deterministic simulator for one process at a time: threads, time, files, network and randomness
//! are taken over at the libc boundary; every decision comes from seeded, recorded choice streams.
pub mod alloc;
pub mod args;
pub mod driver;
pub mod fs;
pub mod hooks;
pub mod net;
pub mod raw;
pub mod rng;
pub mod shm;
pub mod sim;

pub use driver::*;
pub use alloc::Meter;
pub use net::{Net, Req, Resp};
pub use rng::{hash_bytes, hash_str, mix, Choices, Rng};
pub use sim::*;

/// For harness code running inside a simulated process: a fault from the given kinds, or none.
pub fn body_fault(kinds: &[u32]) -> Option<(u32, u32)> {
    let _g = enter();
    let f = sim::sim().fault(kinds);
    if let Some((k, x)) = f {
        sim::sim().injected(k, &format!("reader {}", x));
    }
    f
}
/// A benign variation, zero meaning none.
pub fn body_choice(n: u32, num: u64, den: u64) -> u32 {
    let _g = enter();
    sim::sim().choose(N, n, num, den)
}
pub fn body_count(kind: u32) {
    let _g = enter();
    sim::sim().count(kind);
}
/// A scheduling point for harness code.
pub fn body_point() {
    let _g = enter();
    sim::sim().point(1000);
}
pub fn virtual_now() -> u64 {
    sim::sim().vtime
}
/// Move the wall clock.
pub fn clock_jump(seconds: i64) {
    let _g = enter();
    let s = sim::sim();
    s.wall_off += seconds * 1_000_000_000;
    s.injected(CLOCK_JUMP, &format!("{} s", seconds));
}
/// From here on the environment behaves.
pub fn faults_end() {
    let _g = enter();
    let s = sim::sim();
    s.cfg.faults = FaultPlan::default();
    s.cfg.net_kinds.clear();
    s.cfg.scopes.clear();
    s.fs.disk_full = false;
    s.fs.bad_paths.clear();
}
/// Hand over a part of the result now: the process may be killed before its end.
pub fn body_result(b: &[u8]) {
    let _g = enter();
    sim::sim().shm.result.append(b);
}

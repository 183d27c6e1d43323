
pub fn sim_entry() -> i32 {
    let s = crate::SimStatus::sim_status(main());
    let _ = std::io::Write::flush(&mut std::io::stdout());
    s
}

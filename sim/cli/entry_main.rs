
/// The exit status of what a main function returned.
pub trait SimStatus {
    fn sim_status(self) -> i32;
}
impl SimStatus for () {
    fn sim_status(self) -> i32 {
        0
    }
}
impl<T: SimStatus, E: std::fmt::Debug> SimStatus for std::result::Result<T, E> {
    fn sim_status(self) -> i32 {
        match self {
            Ok(v) => v.sim_status(),
            Err(e) => {
                eprintln!("Error: {:?}", e);
                1
            }
        }
    }
}
impl SimStatus for std::process::ExitCode {
    fn sim_status(self) -> i32 {
        (format!("{:?}", self) != format!("{:?}", std::process::ExitCode::SUCCESS)) as i32
    }
}

/// What the operating system would see of the program.
pub fn sim_logreduce() -> i32 {
    let s = main().sim_status();
    let _ = std::io::Write::flush(&mut std::io::stdout());
    s
}

#[path = "sim_render.rs"]
mod sim_render;
pub use sim_render::sim_entry as sim_render_report;

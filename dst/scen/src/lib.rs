//! Scenario code: runs inside the simulation against the real ferrite library.
use simcore::Plan;
pub mod cat;
pub mod disk;
pub mod idx;
pub mod io;
pub mod locks;
pub mod mem;
pub mod pool;
pub mod recover;
pub mod plan;
pub mod stmt;
pub mod table;
pub mod txn;
pub mod util;
pub mod wal;

struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        simcore::raw_err(&format!("{:>12} {} {}: {}", simcore::now_ns() / 1000, simcore::sched::me(), r.target(), r.args()));
    }
    fn flush(&self) {}
}
pub fn run(p: &'static Plan, phase: u32) {
    // debugging aid: the library's own log, with virtual time (does change allocation, hence schedules)
    if std::env::var_os("DST_LOG").is_some() {
        let _ = log::set_logger(&L);
        log::set_max_level(log::LevelFilter::Trace);
    }
    match p.scenario.as_str() {
        "disk" => disk::run(p, phase),
        "cat" => cat::run(p, phase),
        "idx" => idx::run(p, phase),
        "io" => io::run(p, phase),
        "iotrack" => io::run_tracker(p, phase),
        "wal" => wal::run(p, phase),
        "pool" => pool::run(p, phase),
        "locks" => locks::run(p, phase),
        "recover" => recover::run(p, phase),
        "table" => table::run(p, phase),
        "stmt" => stmt::run(p, phase),
        "txn" => txn::run(p, phase),
        "mem" => mem::run(p, phase),
        other => simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", &format!("no scenario {other}")),
    }
}

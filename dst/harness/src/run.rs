//! Executes plans in forked simulated processes.
use simcore::shm::*;
use simcore::{plan::Plan, sched, shm, vfs};
pub use simcore::api::Rec;

#[derive(Clone, Debug)]
pub struct Out {
    pub code: u32,
    pub class: String,
    pub msg: String,
}
#[derive(Clone, Debug)]
pub struct Res {
    pub outs: Vec<Out>,
    pub hist: Vec<Rec>,
    pub panics: u32,
    pub panic_text: String,
    pub trace: u64,
    pub decisions: Vec<Vec<(u32, u32, u64, u64)>>,
    pub log: String,
}
impl Res {
    pub fn last(&self) -> &Out {
        self.outs.last().unwrap()
    }
    pub fn completed(&self) -> bool {
        self.last().code == OUT_OK
    }
    pub fn crashed_somewhere(&self) -> bool {
        self.outs.iter().any(|o| o.code == OUT_CRASHED)
    }
}
pub const OUT_HANG: u32 = 50;

fn one(plan: &Plan, phase: u32, alarm_s: u32) {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::signal(libc::SIGPROF, libc::SIG_DFL);
            // a loop without any hook burns processor time; real time alone may be a loaded machine
            let t = libc::timeval { tv_sec: alarm_s as i64, tv_usec: 0 };
            libc::setitimer(libc::ITIMER_PROF, &libc::itimerval { it_interval: t, it_value: t }, std::ptr::null_mut());
            libc::alarm(alarm_s * 3);
            let crash_bb = plan
                .faults
                .iter()
                .filter(|f| f.phase == phase && f.k == "crash_bb")
                .map(|f| f.n.max(1))
                .min()
                .unwrap_or(u64::MAX);
            vfs::init(plan.seed, &plan.faults, phase, plan.cfg("crash_mode"), plan.sched.lat_ns, phase > 0);
            let replay = if plan.sched.strategy == 9 {
                Some(plan.decisions.get(phase as usize).cloned().unwrap_or_default())
            } else {
                None
            };
            let cfg = sched::RunCfg {
                p: plan.sched.clone(),
                seed: plan.seed.wrapping_add(phase as u64 * 0x9e37),
                replay,
                start_ns: 1_000_000_000,
                crash_bb,
                clock_step: plan.cfg("clock_step_ms") * 1_000_000,
                rt_steps: plan.faults.iter().filter(|f| f.phase == phase && f.k == "clock").map(|f| (f.n, f.arg * 1_000)).collect(),
                rt_gran: plan.cfg("clock_gran_us") as u64 * 1_000,
            };
            let p: &'static Plan = &*(plan as *const Plan);
            sched::s().seq = simcore::shm::shm().nhist;
            sched::run(cfg, Box::new(move || scen::run(p, phase)));
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if shm::shm().outcome == OUT_NONE {
            if libc::WIFSIGNALED(st) && matches!(libc::WTERMSIG(st), libc::SIGALRM | libc::SIGPROF) {
                sched::set_outcome(OUT_HANG, "hang", "the simulated process stopped reaching any hook");
            } else if libc::WIFSIGNALED(st) {
                sched::set_outcome(OUT_ABORT, "abort", &format!("killed by signal {}", libc::WTERMSIG(st)));
            } else {
                sched::set_outcome(OUT_HARNESS, "harness", &format!("exit status {}", libc::WEXITSTATUS(st)));
            }
        }
    }
}
fn take_out() -> Out {
    let h = shm::shm();
    Out { code: h.outcome, class: text(&h.class, h.class_len), msg: text(&h.msg, h.msg_len) }
}
pub fn execute(plan: &Plan, max_phases: u32) -> Res {
    let mut outs = vec![];
    let mut decs = vec![];
    for phase in 0..max_phases.max(1) {
        reset(phase > 0);
        shm::shm().outcome = OUT_NONE;
        let d0 = shm::shm().ndec as usize;
        one(plan, phase, 30);
        let o = take_out();
        let h = shm::shm();
        decs.push(h.dec[d0..h.ndec as usize].iter().map(|d| (d.kind, d.tid, d.n, d.val)).collect());
        let go = o.code == OUT_CRASHED;
        outs.push(o);
        if !go {
            break;
        }
    }
    let h = shm::shm();
    Res {
        outs,
        hist: simcore::history(),
        panics: h.npanics,
        panic_text: text(&h.panic, h.panic_len),
        trace: h.trace,
        decisions: decs,
        log: String::from_utf8_lossy(&h.log[..h.nlog as usize]).into_owned(),
    }
}

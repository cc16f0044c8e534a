//! Search over seeds, minimisation, replay, evidence.
use crate::checks::{self, Check, Scn};
use crate::run::{execute, Res, OUT_HANG};
use serde_json::{json, Value};
use simcore::plan::Plan;
use simcore::shm::*;
use simcore::{raw, rng, shm, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// the property held; was the run non-trivial (something that could have gone wrong happened)?
    Ok(bool),
    Bad(String, String), // class, message
    /// the run says nothing (counted)
    Skip,
}
pub fn bad(class: &str, msg: String) -> Verdict {
    Verdict::Bad(class.to_string(), msg)
}

pub fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub fn known_findings() -> Vec<(String, String, String)> {
    // lines: "property=<id> class=<class> <description>"; "fixed:" lines and comments suppress nothing
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("property=") {
            let mut it = r.splitn(2, ' ');
            let p = it.next().unwrap_or("").to_string();
            let rest = it.next().unwrap_or("");
            if let Some(r2) = rest.strip_prefix("class=") {
                let mut it = r2.splitn(2, ' ');
                let c = it.next().unwrap_or("").to_string();
                out.push((p, c, it.next().unwrap_or("").to_string()));
            }
        }
    }
    out
}
/// Generic interpretation of abnormal endings; None when the run ended normally.
pub fn abnormal(r: &Res) -> Option<Verdict> {
    for o in &r.outs {
        match o.code {
            OUT_VIOLATION => return Some(bad(&o.class, o.msg.clone())),
            OUT_ABORT => return Some(bad("abort", format!("{} {}", o.msg, r.panic_text))),
            OUT_DEADLOCK => return Some(bad("deadlock", o.msg.clone())),
            OUT_BUDGET | OUT_TIME => return Some(bad("no-progress", format!("{} {}", o.msg, r.panic_text))),
            OUT_HANG => return Some(bad("hang", o.msg.clone())),
            _ => {}
        }
    }
    if r.panics > 0 {
        return Some(bad("panic", r.panic_text.clone()));
    }
    None
}
fn judge(s: &Scn, p: &Plan) -> (Verdict, Res) {
    let mut r = execute(p, s.phases);
    // Real time passed without a hook being reached.  One seed is one execution, so a loop in the code under test comes
    // back every time; a pause of the whole machine does not.
    for _ in 0..2 {
        if r.outs.iter().any(|o| o.code == OUT_HANG) {
            r = execute(p, s.phases);
        }
    }
    if r.outs.iter().any(|o| o.code == OUT_HARNESS) {
        eprintln!("harness error: {:?}\nplan {}", r.outs, serde_json::to_string(p).unwrap());
        unsafe { raw::exit_group(4) };
    }
    // a scenario that could not even open its storage has shown nothing
    if p.faults.is_empty() && r.hist.iter().any(|x| x.tag == scen::util::NOTE && x.w[0] == 1) {
        return (bad("open-failed", format!("the storage could not be opened although no error was injected: {}", r.log)), r);
    }
    // a plan the minimiser has taken apart may be one the oracle cannot make sense of
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.judge)(p, &r))).unwrap_or(Verdict::Skip);
    (v, r)
}
fn hist_hash(r: &Res) -> u64 {
    let mut h = r.trace;
    for x in &r.hist {
        h = rng::mix(h ^ x.tag ^ x.w.iter().fold(7, |a, b| rng::mix(a ^ *b)));
    }
    for o in &r.outs {
        h = rng::mix(h ^ o.code as u64);
    }
    h
}
fn plan_for(c: &Check, seed: u64, idx: u64, tier: &str) -> (usize, Plan) {
    let mut r = Rng::stream(seed ^ c.prop.bytes().fold(0u64, |a, b| a * 131 + b as u64), idx);
    let total: u64 = c.scns.iter().map(|s| s.weight as u64).sum();
    let mut k = r.below(total);
    let mut si = 0;
    for (i, s) in c.scns.iter().enumerate() {
        if k < s.weight as u64 {
            si = i;
            break;
        }
        k -= s.weight as u64;
    }
    let mut p = Plan { scenario: c.scns[si].run.to_string(), seed: r.next(), ..Default::default() };
    sched_swarm(&mut r, &mut p);
    (c.scns[si].gen)(&mut r, &mut p, tier);
    (si, p)
}
/// Scheduling parameters, drawn afresh for every run.
fn sched_swarm(r: &mut Rng, p: &mut Plan) {
    let s = &mut p.sched;
    s.strategy = *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3]);
    s.preempt_mean = *r.pick(&[0, 20, 60, 200, 200, 600, 600, 2000, 8000]);
    s.switch_ppm = *r.pick(&[0, 20_000, 200_000]);
    s.pct_depth = r.range(1, 6) as u32;
    s.pct_len = *r.pick(&[2_000, 20_000, 100_000, 400_000]);
    s.spurious_ppm = *r.pick(&[0, 0, 0, 2_000, 20_000]);
    s.jump_ppm = *r.pick(&[0, 500, 5_000, 50_000]);
    s.lat_ns = *r.pick(&[0, 2_000, 20_000, 100_000, 1_000_000]);
}
struct Agg {
    runs: u64,
    skip: u64,
    nontrivial: u64,
    distinct: BTreeSet<u64>,
    distinct_nt: BTreeSet<u64>,
    stats: Vec<u64>,
    per_scn: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    recheck: u64,
    mismatch: u64,
    unrepro: u64,
    vioruns: Vec<(u64, String, String, String)>,
}
impl Agg {
    fn new() -> Agg {
        Agg { runs: 0, skip: 0, nontrivial: 0, distinct: BTreeSet::new(), distinct_nt: BTreeSet::new(), stats: vec![0; NSTAT],
            per_scn: BTreeMap::new(), known: BTreeMap::new(), recheck: 0, mismatch: 0, unrepro: 0, vioruns: vec![] }
    }
}
fn worker(c: &Check, w: u64, nw: u64, seed: u64, tier: &str, deadline: u64, first: u64, dir: &str, stop_on_first: bool) -> ! {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        let ncpu = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(w as usize % ncpu, &mut set);
        raw::sc6(libc::SYS_sched_setaffinity, 0, core::mem::size_of::<libc::cpu_set_t>(), &set as *const _ as usize, 0, 0, 0);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    shm::create();
    let known = known_findings();
    let mut a = Agg::new();
    let mut idx = first + w;
    while raw::real_now_ns() < deadline {
        let (si, p) = plan_for(c, seed, idx, tier);
        let s = &c.scns[si];
        let (v, r) = judge(s, &p);
        a.runs += 1;
        *a.per_scn.entry(s.name.to_string()).or_default() += 1;
        for i in 0..NSTAT {
            a.stats[i] += shm::shm().stats[i];
        }
        let hh = hist_hash(&r);
        a.distinct.insert(hh);
        if a.runs % 97 == 3 {
            let r2 = execute(&p, s.phases);
            a.recheck += 1;
            if hist_hash(&r2) != hh {
                a.mismatch += 1;
                if std::env::var("DST_DEBUG").is_ok() {
                    eprintln!("nondeterminism: idx {} scenario {}", idx, s.name);
                }
            }
        }
        match v {
            Verdict::Ok(nt) => {
                if nt {
                    a.nontrivial += 1;
                    a.distinct_nt.insert(hh);
                }
            }
            Verdict::Skip => a.skip += 1,
            Verdict::Bad(cl, msg) => {
                if known.iter().any(|(pp, kc, _)| pp == c.prop && *kc == cl) {
                    *a.known.entry(cl).or_default() += 1;
                } else if !matches!(judge(s, &p).0, Verdict::Bad(c2, _) if c2 == cl) {
                    a.unrepro += 1;
                    eprintln!("dst: index {idx} reported {cl} once but not when executed again: {msg}");
                } else {
                    a.vioruns.push((idx, s.name.to_string(), cl, msg));
                    if stop_on_first || a.vioruns.len() > 400 {
                        break;
                    }
                }
            }
        }
        idx += nw;
        if stop_on_first && a.runs % 8 == 0 && std::path::Path::new(&format!("{dir}/stop")).exists() {
            break;
        }
    }
    if stop_on_first && !a.vioruns.is_empty() {
        let _ = std::fs::write(format!("{dir}/stop"), b"");
    }
    let cov: Vec<usize> = (0..COV_CAP).filter(|&i| shm::shm().cov[i] != 0).collect();
    let v = json!({
        "runs": a.runs, "skip": a.skip, "nontrivial": a.nontrivial,
        "distinct": a.distinct.iter().collect::<Vec<_>>(), "distinct_nt": a.distinct_nt.iter().collect::<Vec<_>>(),
        "stats": a.stats, "per_scn": a.per_scn, "known": a.known, "recheck": a.recheck, "mismatch": a.mismatch, "unrepro": a.unrepro,
        "vio": a.vioruns, "cov": cov,
    });
    let _ = std::fs::write(format!("{dir}/w{w}.json"), serde_json::to_vec(&v).unwrap());
    unsafe { raw::exit_group(0) }
}
fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
pub fn cli(args: &[String]) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], args),
        Some("replay") => replay(&args[2], args.iter().any(|a| a == "-v")),
        Some("one") => one(&args[2], args),
        Some("list") => {
            for c in checks::all() {
                println!("{} {}", c.prop, c.scns.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        Some("selftest") => selftest(args),
        _ => {
            eprintln!("usage: dst check <property> [--secs n] [--seed n] | replay <file> | one <property> --idx n | list | selftest");
            2
        }
    }
}
fn find(prop: &str) -> Check {
    match checks::all().into_iter().find(|c| c.prop == prop) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}
fn seed_env(args: &[String]) -> u64 {
    arg(args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1)
}
/// Determinism proof: the same indices executed by two worker layouts must give the same trace hashes.
fn selftest(args: &[String]) -> i32 {
    let seed = seed_env(args);
    let n: u64 = arg(args, "--n").and_then(|s| s.parse().ok()).unwrap_or(50);
    let mut bads = 0;
    let mut total = 0;
    let only = arg(args, "--prop");
    for c in checks::all() {
        if let Some(o) = &only {
            if o != c.prop {
                continue;
            }
        }
        let mut tables: Vec<Vec<u64>> = vec![];
        for nw in [1u64, 8, 5] {
            let dir = tmpdir();
            let mut pids = vec![];
            for w in 0..nw {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    shm::create();
                    let mut out = vec![];
                    let mut i = w;
                    while i < n {
                        let (si, p) = plan_for(&c, seed, i, "quick");
                        let r = execute(&p, c.scns[si].phases);
                        out.push((i, hist_hash(&r)));
                        i += nw;
                    }
                    let _ = std::fs::write(format!("{dir}/t{w}"), serde_json::to_vec(&out).unwrap());
                    unsafe { raw::exit_group(0) }
                }
                pids.push(pid);
            }
            let mut t = vec![0u64; n as usize];
            for (w, p) in pids.iter().enumerate() {
                let mut st = 0;
                unsafe { libc::waitpid(*p, &mut st, 0) };
                let v: Vec<(u64, u64)> = serde_json::from_slice(&std::fs::read(format!("{dir}/t{w}")).unwrap()).unwrap();
                for (i, h) in v {
                    t[i as usize] = h;
                }
            }
            let _ = std::fs::remove_dir_all(&dir);
            tables.push(t);
        }
        let mut m = 0;
        for i in 0..n as usize {
            total += 1;
            if tables.iter().any(|t| t[i] != tables[0][i]) {
                m += 1;
                if m < 4 {
                    println!("{}: index {} differs {:x?}", c.prop, i, tables.iter().map(|t| t[i]).collect::<Vec<_>>());
                }
            }
        }
        println!("{}: {} runs x 3 layouts, {} nondeterministic", c.prop, n, m);
        bads += m;
    }
    println!("selftest: {total} runs, {bads} nondeterministic");
    if bads > 0 { 1 } else { 0 }
}
fn tmpdir() -> String {
    let d = format!("{}/build/tmp/{}-{}", root(), std::process::id(), raw::real_now_ns());
    std::fs::create_dir_all(&d).expect("tmpdir");
    d
}
fn one(prop: &str, args: &[String]) -> i32 {
    let c = find(prop);
    let idx: u64 = arg(args, "--idx").and_then(|s| s.parse().ok()).unwrap_or(0);
    let n: u64 = arg(args, "--n").and_then(|s| s.parse().ok()).unwrap_or(1);
    shm::create();
    for i in idx..idx + n {
        let (si, p) = plan_for(&c, seed_env(args), i, "quick");
        let t = raw::real_now_ns();
        let (v, r) = judge(&c.scns[si], &p);
        let el = (raw::real_now_ns() - t) / 1000;
        let h = shm::shm();
        println!(
            "{i} {} {:?} outs={:?} hist={} panics={} pts={} sw={} pre={} bb={} time={}ms wall={}us thr={} dec={}",
            c.scns[si].name, v, r.outs, r.hist.len(), r.panics, h.stats[0], h.stats[1], h.stats[2], h.stats[3],
            h.stats[4] / 1_000_000, el, h.stats[5], h.ndec
        );
        if args.iter().any(|a| a == "-v") {
            println!("{}", serde_json::to_string(&p).unwrap());
            println!("{}\n{}", r.panic_text, r.log);
            for x in &r.hist {
                println!("  {} {} {:?}", x.seq, x.tag, x.w);
            }
        }
    }
    0
}
fn check(prop: &str, args: &[String]) -> i32 {
    let c = find(prop);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = arg(args, "--tier").unwrap_or(tier);
    let seed = seed_env(args);
    let dsecs = if tier == "thorough" { 600 } else { 45 };
    let secs: u64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(dsecs);
    let ncpu = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) } as u64;
    let nw: u64 = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(ncpu.min(16));
    let survey = args.iter().any(|a| a == "--survey");
    let first: u64 = arg(args, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    println!("dst: property {prop} tier {tier} seed {seed} workers {nw}");
    let t0 = raw::real_now_ns();
    let dir = tmpdir();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let known = known_findings();
    // directed demonstrations of the listed findings (they print, they never fail the check)
    let deadline = t0 + secs * 1_000_000_000;
    let _ = std::io::stdout().flush();
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(&c, w, nw, seed, &tier, deadline, first, &dir, !survey);
        }
        pids.push(pid);
    }
    let mut failed = 0;
    for p in &pids {
        let mut st = 0;
        unsafe { libc::waitpid(*p, &mut st, 0) };
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            failed += 1;
        }
    }
    let mut a = Agg::new();
    let mut cov: BTreeSet<u64> = BTreeSet::new();
    for w in 0..nw {
        let Ok(b) = std::fs::read(format!("{dir}/w{w}.json")) else { continue };
        let v: Value = serde_json::from_slice(&b).unwrap();
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        a.runs += u("runs");
        a.skip += u("skip");
        a.nontrivial += u("nontrivial");
        a.recheck += u("recheck");
        a.mismatch += u("mismatch");
        a.unrepro += u("unrepro");
        for x in v["distinct"].as_array().unwrap() {
            a.distinct.insert(x.as_u64().unwrap());
        }
        for x in v["distinct_nt"].as_array().unwrap() {
            a.distinct_nt.insert(x.as_u64().unwrap());
        }
        for (i, x) in v["stats"].as_array().unwrap().iter().enumerate() {
            a.stats[i] += x.as_u64().unwrap();
        }
        for (k, x) in v["per_scn"].as_object().unwrap() {
            *a.per_scn.entry(k.clone()).or_default() += x.as_u64().unwrap();
        }
        for (k, x) in v["known"].as_object().unwrap() {
            *known_hit.entry(k.clone()).or_default() += x.as_u64().unwrap();
        }
        for x in v["vio"].as_array().unwrap() {
            a.vioruns.push((x[0].as_u64().unwrap(), x[1].as_str().unwrap().into(), x[2].as_str().unwrap().into(), x[3].as_str().unwrap().into()));
        }
        for x in v["cov"].as_array().unwrap() {
            cov.insert(x.as_u64().unwrap());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    a.vioruns.sort();
    let wall = (raw::real_now_ns() - t0) as f64 / 1e9;
    if survey {
        let mut by: BTreeMap<(String, String), (u64, u64, String)> = BTreeMap::new();
        for (i, sc, cl, m) in &a.vioruns {
            let e = by.entry((sc.clone(), cl.clone())).or_insert((0, *i, m.clone()));
            e.0 += 1;
        }
        for ((sc, cl), (n, i, m)) in by {
            println!("SURVEY {sc} {cl}: {n} (first idx {i}) {}", m.chars().take(400).collect::<String>());
        }
    }
    shm::create();
    let guards = unsafe { simcore::sched::NGUARDS } as u64;
    let st = &a.stats;
    let mut samples = vec![];
    for i in 0..3 {
        let (_, p) = plan_for(&c, seed, first + i, &tier);
        samples.push(serde_json::to_value(&p).unwrap());
    }
    let mut probes = BTreeMap::new();
    for (i, n) in c.probes {
        probes.insert(n.to_string(), st[ST_PROBE + *i]);
    }
    let nvio = if a.vioruns.is_empty() { 0 } else { 1 };
    let ev = json!({
        "property": prop, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.distinct_nt.len(),
            "rule": c.rule,
            "samples": samples,
            "inconclusive_runs": a.skip,
            "distinct_interleavings": a.distinct.len(),
            "interleaving_measure": "hash over every context switch (thread chosen, basic-block position of the thread left) and every recorded event and disk write",
            "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "seeds_first_index": first,
            "runs_by_scenario": a.per_scn,
            "simulated_seconds": st[ST_TIME] as f64 / 1e9,
            "scheduling_points": st[ST_POINTS], "context_switches": st[ST_SWITCHES], "preemptions_inside_code": st[ST_PREEMPTS],
            "basic_blocks_executed": st[ST_BB], "threads_created": st[ST_THREADS],
            "faults_fired": {
                "crash": st[ST_CRASH], "read_error": st[ST_EIO_R], "write_error": st[ST_EIO_W], "fsync_error": st[ST_EIO_S],
                "disk_full": st[ST_ENOSPC], "short_read": st[ST_SHORT_R], "short_write": st[ST_SHORT_W], "interrupted_call": st[ST_EINTR],
                "latency_spike": st[ST_LAT], "open_failure": st[ST_OPEN_FAIL], "writes_torn_at_crash": st[ST_TORN],
                "writes_lost_at_crash": st[ST_LOST], "unsynced_writes_kept_at_crash": st[ST_KEPT],
                "spurious_futex_wakeup": st[ST_SPURIOUS], "early_timer_expiry": st[ST_JUMPS], "wall_clock_step": st[ST_CLOCKJUMP],
            },
            "disk_operations": {"open": st[ST_VFS_BASE], "read": st[ST_VFS_BASE+1], "write": st[ST_VFS_BASE+2], "fsync": st[ST_VFS_BASE+3]},
            "probes": probes,
            "instrumented_blocks_reached": cov.len(), "instrumented_blocks_total": guards,
            "determinism_rechecks": a.recheck, "determinism_mismatches": a.mismatch, "reports_not_reproduced": a.unrepro,
            "real_components": c.real, "stubbed_components": c.stub,
            "known_findings_hit": known_hit,
            "violations_seen": a.vioruns.len(),
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": nvio,
    });
    let evp = format!("{}/evidence/{}.json", root(), prop);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "dst: {} runs ({} non-trivial, {} inconclusive), {} distinct interleavings, {:.0} simulated s, {} switches, {} preemptions, {}/{} determinism mismatches, {:.1}s",
        a.runs, a.nontrivial, a.skip, a.distinct.len(), st[ST_TIME] as f64 / 1e9, st[ST_SWITCHES], st[ST_PREEMPTS], a.mismatch, a.recheck, wall
    );
    // listed findings: print each with the run that shows it
    for (pp, cl, d) in &known {
        if pp == prop {
            let mut shown = known_hit.get(cl).copied().unwrap_or(0) > 0;
            if !shown {
                for s in c.findings.iter().filter(|f| f.0 == cl.as_str()) {
                    for k in 0..200u64 {
                        let mut r = Rng::stream(seed, 0xf17d + k);
                        let mut p = Plan { scenario: s.1.run.to_string(), seed: r.next(), ..Default::default() };
                        sched_swarm(&mut r, &mut p);
                        (s.1.gen)(&mut r, &mut p, &tier);
                        if let (Verdict::Bad(c2, _), _) = judge(&s.1, &p) {
                            if c2 == *cl {
                                shown = true;
                                break;
                            }
                        }
                    }
                }
            }
            println!("KNOWN-FINDING: property={pp} {cl}: {d}{}", if shown { "" } else { " (listed; not reached in this run)" });
        }
    }
    if failed > 0 && a.vioruns.is_empty() {
        eprintln!("dst: {failed} worker(s) failed");
        return 4;
    }
    if a.runs == 0 {
        eprintln!("dst: nothing was run");
        return 4;
    }
    if a.runs > 2000 && a.nontrivial == 0 && a.vioruns.is_empty() {
        eprintln!("dst: no run reached what the property is about");
        return 4;
    }
    if let Some((idx, _, cl, msg)) = a.vioruns.first().cloned() {
        let (si, p) = plan_for(&c, seed, idx, &tier);
        let s = &c.scns[si];
        println!("dst: violation at index {idx} class {cl}: {msg}");
        let budget = if tier == "thorough" { 120 } else { 45 };
        let (p, notes) = if survey { (p, vec![]) } else { minimise(s, &p, &cl, budget) };
        let (v, r) = judge(s, &p);
        let (v2, r2) = judge(s, &p);
        let exact = v == v2 && hist_hash(&r) == hist_hash(&r2);
        let m = match &v {
            Verdict::Bad(_, m) => m.clone(),
            _ => msg.clone(),
        };
        let path = format!("{}/replays/{}-{}-{}.json", root(), prop, seed, idx);
        let _ = std::fs::create_dir_all(format!("{}/replays", root()));
        let doc = json!({"property": prop, "scenario": s.name, "class": cl, "message": m, "found_at": {"seed": seed, "index": idx},
            "trace": format!("{:016x}", hist_hash(&r)), "replays_exactly": exact, "minimised": notes, "plan": p,
            "panics": r.panic_text, "history": r.hist.iter().map(|x| format!("{} {} {:?}", x.seq, x.tag, x.w)).collect::<Vec<_>>(), "log": r.log});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("dst: {m}");
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    0
}
/// Shrinks the schedule, the operations and the faults while the same class of violation persists.
fn minimise(s: &Scn, p0: &Plan, class: &str, budget_s: u64) -> (Plan, Vec<String>) {
    let t0 = raw::real_now_ns();
    let over = || raw::real_now_ns() - t0 > budget_s * 1_000_000_000;
    let mut notes = vec![];
    let still = |p: &Plan| -> Option<Res> {
        let (v, r) = judge(s, p);
        match v {
            Verdict::Bad(c, _) if c == class => Some(r),
            _ => None,
        }
    };
    let Some(r) = still(p0) else { return (p0.clone(), vec!["not reproduced".into()]) };
    let mut p = p0.clone();
    p.sched.strategy = 9;
    p.decisions = r.decisions.clone();
    if still(&p).is_none() {
        notes.push("kept as a seeded schedule (explicit decisions did not reproduce)".into());
        p = p0.clone();
    }
    let n_dec0: usize = p.decisions.iter().map(|d| d.len()).sum();
    let (o0, f0) = (p.ops.len(), p.faults.len());
    for round in 0..3 {
        let before = (p.ops.len(), p.faults.len(), p.decisions.iter().map(|d| d.len()).sum::<usize>());
        if p.sched.strategy == 9 {
            // no decisions at all?
            let mut q = p.clone();
            q.decisions = vec![];
            if still(&q).is_some() {
                p = q;
            } else {
                for ph in 0..p.decisions.len() {
                    let d = p.decisions[ph].clone();
                    let base = p.clone();
                    let d2 = ddmin(d, &mut |c| {
                        let mut q = base.clone();
                        q.decisions[ph] = c.to_vec();
                        still(&q).is_some()
                    }, &over);
                    p.decisions[ph] = d2;
                }
            }
        }
        let base = p.clone();
        let ops = ddmin(p.ops.clone(), &mut |c| {
            let mut q = base.clone();
            q.ops = c.to_vec();
            still(&q).is_some()
        }, &over);
        p.ops = ops;
        let base = p.clone();
        let fl = ddmin(p.faults.clone(), &mut |c| {
            let mut q = base.clone();
            q.faults = c.to_vec();
            still(&q).is_some()
        }, &over);
        p.faults = fl;
        let after = (p.ops.len(), p.faults.len(), p.decisions.iter().map(|d| d.len()).sum::<usize>());
        if after == before || over() || round == 2 {
            break;
        }
    }
    notes.push(format!("operations {} -> {}, faults {} -> {}, scheduling decisions {} -> {}", o0, p.ops.len(), f0, p.faults.len(), n_dec0,
        p.decisions.iter().map(|d| d.len()).sum::<usize>()));
    (p, notes)
}
fn ddmin<T: Clone>(mut v: Vec<T>, test: &mut dyn FnMut(&[T]) -> bool, over: &dyn Fn() -> bool) -> Vec<T> {
    if v.is_empty() {
        return v;
    }
    if test(&[]) {
        return vec![];
    }
    let mut n = 2usize;
    while v.len() >= 2 {
        if over() {
            break;
        }
        let chunk = v.len().div_ceil(n);
        let mut reduced = false;
        let mut i = 0;
        while i < v.len() {
            if over() {
                return v;
            }
            let mut c = v[..i].to_vec();
            c.extend_from_slice(&v[(i + chunk).min(v.len())..]);
            if c.len() < v.len() && test(&c) {
                v = c;
                reduced = true;
            } else {
                i += chunk;
            }
        }
        if reduced {
            n = n.saturating_sub(1).max(2);
        } else if chunk == 1 {
            break;
        } else {
            n = (n * 2).min(v.len());
        }
    }
    v
}
fn replay(path: &str, verbose: bool) -> i32 {
    let Ok(b) = std::fs::read(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let v: Value = serde_json::from_slice(&b).unwrap();
    let prop = v["property"].as_str().unwrap().to_string();
    let p: Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let c = find(&prop);
    let Some(s) = c.scns.iter().find(|s| s.name == v["scenario"].as_str().unwrap_or("")) else {
        eprintln!("unknown scenario");
        return 2;
    };
    shm::create();
    let (vd, r) = judge(s, &p);
    if verbose {
        for x in &r.hist {
            println!("  {} {} {:?}", x.seq, x.tag, x.w);
        }
        println!("{}\n{}", r.panic_text, r.log);
    }
    let same = format!("{:016x}", hist_hash(&r)) == v["trace"].as_str().unwrap_or("");
    match vd {
        Verdict::Bad(cl, m) => {
            println!("replayed: class {cl} (recorded {}), trace {}: {m}", v["class"], if same { "identical" } else { "differs" });
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        x => {
            println!("replayed: no violation ({x:?}), trace {}", if same { "identical" } else { "differs" });
            0
        }
    }
}

//! Search driver: many seeded runs in parallel, shrinking, replay files, evidence.
use crate::families;
use crate::oracle::{self, Violation};
use crate::plan::*;
use crate::rng::Rng;
use crate::rt::{self, Finished};
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// property -> families that decide it, with weights
pub fn families_of(prop: &str) -> &'static [(&'static str, u64)] {
    match prop {
        "C01" => &[("fidelity", 4), ("routing", 2), ("faulty", 1), ("hostile", 1)],
        "C02" => &[("fidelity", 4), ("faulty", 2), ("pool", 2), ("rawserver", 1)],
        "C03" => &[("faulty", 4), ("fidelity", 1), ("pool", 2)],
        "C04" => &[("faulty", 4), ("rawserver", 3), ("hostile", 2), ("fidelity", 1)],
        "C05" => &[("hostile", 4), ("fidelity", 2), ("routing", 1), ("pool", 1)],
        "C06" => &[("routing", 6), ("fidelity", 1), ("hostile", 1)],
        "C07" => &[("hostile", 4), ("routing", 3), ("fidelity", 2)],
        "C08" => &[("hostile", 6), ("threads", 1), ("faulty", 1)],
        "C09" => &[("pool", 5), ("faulty", 1), ("fidelity", 1), ("connect", 1), ("rawserver", 1)],
        "C10" => &[("pool", 6), ("faulty", 1), ("connect", 1), ("rawserver", 1)],
        "C11" => &[("faulty", 3), ("pool", 3), ("rawserver", 3)],
        "C12" => &[("connect", 6), ("faulty", 1)],
        "C13" => &[("connect", 6), ("fidelity", 1)],
        "C14" => &[("faulty", 3), ("pool", 2), ("fidelity", 2), ("rawserver", 2), ("connect", 1), ("threads", 1)],
        "C15" => &[("rawserver", 6), ("faulty", 1)],
        "C16" => &[("threads", 1)],
        "C17" => &[("faulty", 3), ("hostile", 3), ("lifecycle", 2), ("pool", 1), ("rawserver", 1), ("fidelity", 1)],
        "C18" => &[("lifecycle", 1)],
        "C20" => &[("faulty", 3), ("pool", 2), ("hostile", 2), ("lifecycle", 1), ("bystander", 1), ("fidelity", 1), ("threads", 1)],
        "C21" => &[("bystander", 1)],
        "C19" => &[("fidelity", 5), ("hostile", 2), ("routing", 2), ("rawserver", 1)],
        _ => panic!("unknown property {}", prop),
    }
}
pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21",
];
pub fn family_at(prop: &str, i: u64) -> &'static str {
    let fs = families_of(prop);
    let total: u64 = fs.iter().map(|f| f.1).sum();
    let mut k = i % total;
    for (f, w) in fs {
        if k < *w {
            return f;
        }
        k -= w;
    }
    unreachable!()
}
pub fn seed_at(base: u64, i: u64) -> u64 {
    let mut r = Rng::sub(base, i.wrapping_add(1));
    r.u64() >> 16
}

// ---------------------------------------------------------------- death of the process

/// A step of the system under test that ends the whole process (abort, memory fault, exhausted
/// stack): the thread is kept where it is, and the plan it was executing is noted.
pub mod death {
    use super::*;
    use std::cell::Cell;
    use std::sync::atomic::{AtomicI32, AtomicPtr};

    thread_local!(static CURRENT: Cell<*const Plan> = const { Cell::new(std::ptr::null()) });
    static PLAN: AtomicPtr<Plan> = AtomicPtr::new(std::ptr::null_mut());
    static SIGNAL: AtomicI32 = AtomicI32::new(0);
    /// executions that may end the process are made in child processes
    pub static IN_CHILD: AtomicBool = AtomicBool::new(false);
    const SIGNALS: [i32; 5] = [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE];

    extern "C" fn note(sig: i32) {
        let p = CURRENT.with(|c| c.get());
        if p.is_null() {
            // not the system under test
            unsafe {
                libc::signal(sig, libc::SIG_DFL);
                libc::raise(sig);
            }
            return;
        }
        if PLAN.compare_exchange(std::ptr::null_mut(), p as *mut Plan, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            SIGNAL.store(sig, Ordering::SeqCst);
        }
        loop {
            unsafe { libc::pause() };
        }
    }
    pub fn watch() {
        for s in SIGNALS {
            unsafe {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = note as extern "C" fn(i32) as usize;
                a.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &a, std::ptr::null_mut());
            }
        }
    }
    pub fn executing(p: &Plan) {
        CURRENT.with(|c| c.set(p));
    }
    /// For the other threads of a run.
    #[derive(Clone, Copy)]
    pub struct Executing(*const Plan);
    unsafe impl Send for Executing {}
    pub fn current() -> Executing {
        Executing(CURRENT.with(|c| c.get()))
    }
    pub fn same(e: Executing) {
        CURRENT.with(|c| c.set(e.0));
    }
    /// The plan during which the process was to end.
    pub fn seen() -> Option<(Plan, String)> {
        match SIGNAL.load(Ordering::SeqCst) {
            0 => None,
            s => {
                // (the thread owning it does not go on)
                let p = unsafe { &*PLAN.load(Ordering::SeqCst) };
                Some((p.clone(), message(s)))
            }
        }
    }
    fn message(s: i32) -> String {
        let n = match s {
            libc::SIGABRT => "SIGABRT",
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGBUS => "SIGBUS",
            libc::SIGILL => "SIGILL",
            _ => "SIGFPE",
        };
        format!("the process dies of {} in a step of the system", n)
    }
    /// Executes the plan in a process of its own: what it violates.
    pub fn child(plan: &Plan, prop: &str, history: &[(String, u64)]) -> Option<(String, u64, Vec<String>)> {
        let dir = std::env::temp_dir();
        let path = dir.join(format!("htrpc-sim-{}-{}.json", std::process::id(), plan.seed));
        let r = Replay {
            property: prop.into(),
            violation: String::new(),
            hash: String::new(),
            plan: plan.clone(),
            trace: vec![],
            history: history.to_vec(),
        };
        std::fs::write(&path, serde_json::to_string(&r).ok()?).ok()?;
        let out = output(&["try", path.to_str()?], 120);
        let _ = std::fs::remove_file(&path);
        serde_json::from_str(out?.lines().last()?).ok()?
    }
    /// What another process of this program prints.
    pub fn output(args: &[&str], secs: u64) -> Option<String> {
        use std::io::Read;
        let mut c = std::process::Command::new(std::env::current_exe().ok()?)
            .args(args)
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .ok()?;
        let mut o = c.stdout.take()?;
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut s = String::new();
            let _ = o.read_to_string(&mut s);
            let _ = tx.send(s);
        });
        let s = rx.recv_timeout(Duration::from_secs(secs)).ok();
        let _ = c.kill();
        let _ = c.wait();
        s
    }
}

/// Executes a plan on a fresh thread.
pub fn run(plan: Arc<Plan>, trace: bool) -> Result<Finished, String> {
    let h = std::thread::Builder::new()
        .name("sim".into())
        .stack_size(32 << 20)
        .spawn(move || {
            death::executing(&plan);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::execute(plan.clone(), trace))).map_err(|e| {
                e.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic".into())
            })
        })
        .map_err(|e| e.to_string())?;
    match h.join() {
        Ok(r) => r,
        Err(_) => Err("simulation thread died".into()),
    }
}

/// As `run`, giving up (and leaving the thread behind) should the run not end.
fn run_within(plan: Arc<Plan>, trace: bool) -> Option<Finished> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(run(plan, trace));
    });
    for _ in 0..3000 {
        match rx.recv_timeout(Duration::from_millis(20)) {
            Ok(r) => return r.ok(),
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return None,
            Err(_) if death::seen().is_some() => return None,
            Err(_) => {}
        }
    }
    None
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub hash: String,
    pub plan: Plan,
    pub trace: Vec<String>,
    /// plans to execute before, in the same process: (family, seed)
    #[serde(default)]
    pub history: Vec<(String, u64)>,
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub hashes: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub per_family: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub decisions: u64,
    pub sim_ns: u64,
    pub calls: [u64; 4],
    pub handlers: u64,
    pub conns: u64,
    pub relevant: u64,
    pub harness_errors: Vec<String>,
    pub replayed: u64,
    pub diverged: u64,
    pub samples: Vec<String>,
}

/// How often the run exercised what the property is about.
fn relevant(prop: &str, f: &Finished) -> u64 {
    use crate::ctx::{Expect, Outcome};
    let r = &f.run;
    let ok = r.calls.iter().filter(|c| matches!(c.out, Some(Outcome::Ok(_)))).count();
    let err = r.calls.iter().filter(|c| matches!(c.out, Some(Outcome::Err(_)))).count();
    let expects = r
        .raw
        .iter()
        .map(|x| x.awaits.len())
        .sum::<usize>();
    let n = match prop {
        "C01" => r.handlers.len(),
        "C02" => ok,
        "C03" => r.calls.len(),
        "C04" => {
            r.faults.get("cut_eof").cloned().unwrap_or(0) as usize
                + r.faults.get("cut_rst").cloned().unwrap_or(0) as usize
                + r.served.len()
                + r.raw.iter().filter(|x| !x.good).count()
        }
        "C05" => r.info.iter().filter(|i| i.wrote[1].len() > 0).count(),
        "C06" => r.reg_errors.len() + expects + r.calls.len(),
        "C07" => expects + r.calls.iter().filter(|c| matches!(c.expect, Expect::Problem(_))).count(),
        "C08" => r.raw.iter().filter(|x| !x.good).count() + r.plan.accept_errs.len(),
        "C09" | "C10" => r.calls.iter().filter(|c| c.pooled).count(),
        "C11" => err + r.calls.iter().filter(|c| matches!(c.out, Some(Outcome::Cancelled))).count(),
        "C12" | "C13" => r.info.iter().filter(|i| i.established_at.is_none()).count(),
        "C14" => r.calls.len(),
        "C15" => r.served.len(),
        "C16" => r.clones as usize,
        "C17" => r.info.iter().filter(|i| i.client_closed_at.is_some()).count(),
        "C18" => r.stops.len() + r.rivals.len(),
        "C19" => r.calls.len() + r.handlers.len(),
        _ => 0,
    };
    n as u64
}

fn absorb(st: &mut Stats, prop: &str, fam: &'static str, f: &Finished) {
    st.runs += 1;
    *st.per_family.entry(fam).or_insert(0) += 1;
    st.hashes.insert(f.hash);
    for (k, v) in &f.run.faults {
        *st.faults.entry(k).or_insert(0) += v;
    }
    st.steps += f.run.steps;
    st.decisions += f.decisions;
    st.sim_ns += f.sim_ns;
    for c in &f.run.calls {
        use crate::ctx::Outcome::*;
        let i = match c.out {
            Some(Ok(_)) => 0,
            Some(Err(_)) => 1,
            Some(Cancelled) => 2,
            None => 3,
        };
        st.calls[i] += 1;
    }
    st.handlers += f.run.handlers.len() as u64;
    st.conns += f.run.info.len() as u64;
    let n = relevant(prop, f);
    st.relevant += n;
    if n > 0 {
        st.nontrivial.insert(f.hash);
    }
    if st.samples.len() < 3 && n > 0 {
        st.samples.push(format!(
            "family {} seed {}: {} calls ({} handled), {} connections, {} steps, {} decisions, {:.3} s simulated, faults {:?}, execution hash {:016x}",
            fam,
            f.run.plan.seed,
            f.run.calls.len(),
            f.run.handlers.len(),
            f.run.info.len(),
            f.run.steps,
            f.decisions,
            f.sim_ns as f64 / 1e9,
            f.run.faults,
            f.hash
        ));
    }
}

pub struct Known {
    pub prop: String,
    pub family: String,
    pub text: String,
    pub what: String,
}
/// Lines `known: property=<id> family=<f> text=<substring of the violation> | <what fails>`.
pub fn known(dir: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(l) = l.strip_prefix("known: ") {
            let (a, what) = l.split_once(" | ").unwrap_or((l, ""));
            let get = |k: &str| -> String {
                a.find(k).map(|i| a[i + k.len()..].to_string()).unwrap_or_default()
            };
            let first = |s: String| s.split(' ').next().unwrap_or("").to_string();
            v.push(Known {
                prop: first(get("property=")),
                family: first(get("family=")),
                text: get("text="),
                what: what.to_string(),
            });
        }
    }
    v
}
fn is_known(k: &[Known], fam: &str, v: &Violation) -> Option<usize> {
    k.iter()
        .position(|k| k.prop == v.prop && (k.family.is_empty() || k.family == fam) && !k.text.is_empty() && v.msg.contains(&k.text))
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: f64,
    pub max_runs: u64,
    pub jobs: usize,
    pub dir: String,
}

/// Counts a worker as gone however it ends.
struct Active(Arc<AtomicU64>);
impl Drop for Active {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

/// The verdicts on a run; a judge that panics is an error of the harness, not a verdict.
fn judged(f: &Finished) -> Result<Vec<Violation>, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| oracle::judge(f))).map_err(|e| {
        let m = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        format!("the oracle panicked: {}", m)
    })
}

/// Exit code of the check.
pub fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let stats = Arc::new(Mutex::new(Stats::default()));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<BTreeMap<u64, (Plan, Violation)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let kn = Arc::new(known(&o.dir));
    let known_hit: Arc<Mutex<BTreeSet<usize>>> = Arc::new(Mutex::new(BTreeSet::new()));
    let running: Arc<Mutex<BTreeMap<usize, (u64, Instant)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let active = Arc::new(AtomicU64::new(o.jobs as u64));
    for j in 0..o.jobs {
        let (stats, next, stop, found, kn, known_hit, running, active) = (
            stats.clone(),
            next.clone(),
            stop.clone(),
            found.clone(),
            kn.clone(),
            known_hit.clone(),
            running.clone(),
            active.clone(),
        );
        let (prop, base, secs, max_runs) = (o.prop.clone(), o.seed, o.secs, o.max_runs);
        std::thread::spawn(move || {
            let _active = Active(active);
            loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > secs {
                    break;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= max_runs {
                    break;
                }
                let fam = family_at(&prop, i);
                let plan = Arc::new(families::make(fam, seed_at(base, i)));
                running.lock().unwrap().insert(j, (i, Instant::now()));
                let r = run(plan.clone(), false);
                running.lock().unwrap().remove(&j);
                match r.and_then(|f| judged(&f).map(|vs| (f, vs))) {
                    Err(e) => {
                        let mut s = stats.lock().unwrap();
                        if s.harness_errors.len() < 10 {
                            s.harness_errors.push(format!("family {} seed {}: {}", fam, plan.seed, e));
                        }
                    }
                    Ok((f, vs)) => {
                        let mut bad = None;
                        for v in vs.into_iter().filter(|v| v.prop == prop) {
                            match is_known(&kn, fam, &v) {
                                Some(k) => {
                                    known_hit.lock().unwrap().insert(k);
                                }
                                None => {
                                    bad = Some(v);
                                    break;
                                }
                            }
                        }
                        let again = if i % 97 == 5 && bad.is_none() {
                            Some(run(plan.clone(), false).map_or(false, |g| g.hash == f.hash))
                        } else {
                            None
                        };
                        let mut s = stats.lock().unwrap();
                        absorb(&mut s, &prop, fam, &f);
                        if let Some(same) = again {
                            s.replayed += 1;
                            if !same {
                                s.diverged += 1;
                            }
                        }
                        drop(s);
                        if let Some(v) = bad {
                            found.lock().unwrap().insert(i, ((*plan).clone(), v));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            }
        });
    }
    // wait, watching for runs that never end
    let mut hung = None;
    let mut dead = None;
    while active.load(Ordering::SeqCst) > 0 && hung.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        dead = death::seen();
        if dead.is_some() {
            break;
        }
        for (_, (i, t)) in running.lock().unwrap().iter() {
            if t.elapsed().as_secs() > 90 {
                hung = Some(*i);
            }
        }
        if hung.is_some() && !found.lock().unwrap().is_empty() {
            break;
        }
    }
    let mut violation = found.lock().unwrap().iter().next().map(|(_, v)| v.clone());
    if let (Some((plan, msg)), None) = (dead, &violation) {
        stop.store(true, Ordering::SeqCst);
        death::IN_CHILD.store(true, Ordering::SeqCst);
        let prop = PROPS.iter().find(|p| **p == o.prop).unwrap();
        violation = Some((plan, Violation { prop, msg }));
    }
    if violation.is_none() {
        if let Some(i) = hung {
            let plan = families::make(family_at(&o.prop, i), seed_at(o.seed, i));
            if ["C05", "C07", "C08", "C12", "C13", "C14", "C15", "C16", "C18", "C20", "C21"].contains(&o.prop.as_str()) {
                let msg = "the code computes without end inside one step".to_string();
                let path = write_replay(o, &plan, &msg, 0, vec!["(a thread of the system never returns; run does not end)".into()]);
                println!("{}", msg);
                println!("VIOLATION property={} replay={}", o.prop, path);
                evidence(o, &stats.lock().unwrap(), t0, 1);
                return 1;
            }
            println!("ERROR: run {} (family {}) does not end", i, plan.family);
            return 2;
        }
    }
    let kh = known_hit.lock().unwrap().clone();
    for k in kh {
        println!("KNOWN-FINDING: property={} {}", kn[k].prop, kn[k].what);
    }
    if let Some((plan, v)) = violation.take() {
        let shrunk = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| shrink(&plan, &o.prop, &kn)));
        let (small, msg, hash, trace, runs) = shrunk.unwrap_or((None, String::new(), 0, vec![], 0));
        // (the plan as found, should minimising it have failed)
        let (small, msg, hash, trace) = match small {
            Some(p) => (p, msg, hash, trace),
            None => match (0..5).find_map(|_| fails(&plan, &o.prop, &kn, true)) {
                Some((m, h, t)) => (plan.clone(), m, h, t),
                None => return lasting(o, &plan, &v, &stats, t0),
            },
        };
        println!("{}", msg);
        println!(
            "found with VERIF_SEED={} family={} seed={} after {} runs, minimised in {} runs",
            o.seed,
            plan.family,
            plan.seed,
            stats.lock().unwrap().runs,
            runs
        );
        let path = write_replay(o, &small, &msg, hash, trace);
        println!("VIOLATION property={} replay={}", o.prop, path);
        evidence(o, &stats.lock().unwrap(), t0, 1);
        return 1;
    }
    let s = stats.lock().unwrap();
    evidence(o, &s, t0, 0);
    if !s.harness_errors.is_empty() {
        println!("ERROR: {}", s.harness_errors[0]);
        return 2;
    }
    if s.diverged > 0 {
        println!("ERROR: {} of {} repeated runs were not identical", s.diverged, s.replayed);
        return 2;
    }
    println!(
        "property {} held: {} runs, {} distinct executions, {:.1} s simulated, {:.1} s",
        o.prop,
        s.runs,
        s.hashes.len(),
        s.sim_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64()
    );
    0
}

/// A violation that does not come back when its plan is executed again: the code keeps state that
/// outlives the simulated processes (statics). Looks for it in fresh processes, as the outcome of
/// one plan or of a sequence of plans.
fn lasting(o: &Opts, plan: &Plan, v: &Violation, stats: &Mutex<Stats>, t0: Instant) -> i32 {
    let done = |plan: &Plan, history: Vec<(String, u64)>, (msg, hash, trace): (String, u64, Vec<String>)| {
        let n = history.len();
        let path = write_replay_after(o, plan, &msg, hash, trace, history);
        println!("{}", msg);
        println!("found with VERIF_SEED={} family={} seed={}, after {} earlier runs in the same process", o.seed, plan.family, plan.seed, n);
        println!("VIOLATION property={} replay={}", o.prop, path);
        evidence(o, &stats.lock().unwrap(), t0, 1);
        1
    };
    if let Some(x) = death::child(plan, &o.prop, &[]) {
        return done(plan, vec![], x);
    }
    let first = death::output(&["sequence", &o.prop, "--seed", &o.seed.to_string(), "--secs", "150"], 200);
    let i: Option<u64> = first.and_then(|s| s.lines().last().and_then(|l| l.parse().ok()));
    if let Some(i) = i {
        let last = families::make(family_at(&o.prop, i), seed_at(o.seed, i));
        let mut n = 1;
        loop {
            let n1 = n.min(i);
            let h: Vec<_> = (i - n1..i).map(|k| (family_at(&o.prop, k).to_string(), seed_at(o.seed, k))).collect();
            if let Some(x) = death::child(&last, &o.prop, &h) {
                return done(&last, h, x);
            }
            if n1 == i {
                break;
            }
            n *= 4;
        }
    }
    println!("ERROR: the violation did not reproduce: {}", v.msg);
    2
}
/// Executes the plans of a check one after the other; prints the number of the first that violates
/// the property.
pub fn sequence(prop: &str, base: u64, secs: u64) -> i32 {
    let t0 = Instant::now();
    let mut i = 0;
    while t0.elapsed().as_secs() < secs {
        let plan = families::make(family_at(prop, i), seed_at(base, i));
        if fails(&plan, prop, &[], false).is_some() {
            println!("{}", i);
            return 1;
        }
        i += 1;
    }
    0
}
/// Prints what the plan of the file violates.
pub fn try_file(path: &str) -> i32 {
    let r: Option<Replay> = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok());
    let x = r.and_then(|r| {
        before(&r.history);
        fails(&r.plan, &r.property, &[], true)
    });
    println!("{}", serde_json::to_string(&x).unwrap());
    0
}
fn before(history: &[(String, u64)]) {
    for (f, s) in history {
        if let Some(f) = families::FAMILIES.iter().find(|x| *x == f) {
            let _ = run_within(Arc::new(families::make(f, *s)), false);
        }
    }
}

fn write_replay(o: &Opts, plan: &Plan, msg: &str, hash: u64, trace: Vec<String>) -> String {
    write_replay_after(o, plan, msg, hash, trace, vec![])
}
fn write_replay_after(o: &Opts, plan: &Plan, msg: &str, hash: u64, trace: Vec<String>, history: Vec<(String, u64)>) -> String {
    let dir = format!("{}/replays", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, o.prop, plan.seed);
    let r = Replay {
        property: o.prop.clone(),
        violation: msg.to_string(),
        hash: format!("{:016x}", hash),
        plan: plan.clone(),
        trace,
        history,
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    path
}

fn fails(plan: &Plan, prop: &str, kn: &[Known], trace: bool) -> Option<(String, u64, Vec<String>)> {
    if death::IN_CHILD.load(Ordering::SeqCst) {
        return death::child(plan, prop, &[]);
    }
    let fam = plan.family.clone();
    let f = match run_within(Arc::new(plan.clone()), trace) {
        Some(f) => f,
        None => return death::seen().map(|(_, m)| (m, 0, vec![])),
    };
    let v = judged(&f)
        .ok()?
        .into_iter()
        .find(|v| v.prop == prop && is_known(kn, &fam, v).is_none())?;
    Some((v.msg, f.hash, f.run.lines))
}

/// Smaller plans that still violate the property.
fn shrink(plan: &Plan, prop: &str, kn: &[Known]) -> (Option<Plan>, String, u64, Vec<String>, u64) {
    let t0 = Instant::now();
    let mut runs = 1;
    let mut best = plan.clone();
    if fails(&best, prop, kn, false).is_none() {
        return (None, String::new(), 0, vec![], runs);
    }
    let left = |runs: u64| t0.elapsed().as_secs() < 25 && runs < 600;
    let mut progress = true;
    while progress && left(runs) {
        progress = false;
        let mut try_plan = |p: Plan, best: &mut Plan, runs: &mut u64| -> bool {
            if !left(*runs) {
                return false;
            }
            *runs += 1;
            if fails(&p, prop, kn, false).is_some() {
                *best = p;
                true
            } else {
                false
            }
        };
        // later phases
        while best.phases.len() > 1 {
            let mut p = best.clone();
            p.phases.pop();
            if !try_plan(p, &mut best, &mut runs) {
                break;
            }
            progress = true;
        }
        // tasks, from the back; an emptied task stays as a placeholder
        for ph in 0..best.phases.len() {
            for t in 0..best.phases[ph].tasks.len() {
                let mut p = best.clone();
                let full = match &mut p.phases[ph].tasks[t] {
                    TaskPlan::Session { ops, .. } => !std::mem::take(ops).is_empty(),
                    TaskPlan::Raw { ops, .. } => !std::mem::take(ops).is_empty(),
                };
                if full && try_plan(p, &mut best, &mut runs) {
                    progress = true;
                }
            }
            let mut k = 0;
            while k < best.phases[ph].faults.len() {
                let mut p = best.clone();
                p.phases[ph].faults.remove(k);
                if try_plan(p, &mut best, &mut runs) {
                    progress = true;
                } else {
                    k += 1;
                }
            }
            for t in 0..best.phases[ph].tasks.len() {
                let n = match &best.phases[ph].tasks[t] {
                    TaskPlan::Session { ops, .. } => ops.len(),
                    TaskPlan::Raw { ops, .. } => ops.len(),
                };
                for k in (0..n).rev() {
                    let mut p = best.clone();
                    match &mut p.phases[ph].tasks[t] {
                        TaskPlan::Session { ops, .. } => {
                            if ops.len() <= 1 || k >= ops.len() {
                                continue;
                            }
                            ops.remove(k);
                        }
                        TaskPlan::Raw { ops, .. } => {
                            if k >= ops.len() {
                                continue;
                            }
                            // only whole request/response pairs and pauses may go
                            match ops[k] {
                                RawOp::Await { .. } if k > 0 && matches!(ops[k - 1], RawOp::Send { .. }) => {
                                    ops.remove(k);
                                    ops.remove(k - 1);
                                }
                                RawOp::Sleep { .. } => {
                                    ops.remove(k);
                                }
                                _ => continue,
                            }
                        }
                    }
                    if try_plan(p, &mut best, &mut runs) {
                        progress = true;
                    }
                }
            }
        }
        let mut k = 0;
        while k < best.cuts.len() {
            let mut p = best.clone();
            p.cuts.remove(k);
            if try_plan(p, &mut best, &mut runs) {
                progress = true;
            } else {
                k += 1;
            }
        }
        let mut k = 0;
        while k < best.accept_errs.len() {
            let mut p = best.clone();
            p.accept_errs.remove(k);
            if try_plan(p, &mut best, &mut runs) {
                progress = true;
            } else {
                k += 1;
            }
        }
        if best.limit == u64::MAX {
            for l in [0u64, 10, 100, 1000, 10_000] {
                let mut p = best.clone();
                p.limit = l;
                if try_plan(p, &mut best, &mut runs) {
                    progress = true;
                    break;
                }
            }
        }
        for f in [
            |p: &mut Plan| p.net.seg_mode = 0,
            |p: &mut Plan| {
                p.net.short_read_pct = 0;
                p.net.short_write_pct = 0;
                p.net.spurious_pct = 0;
                p.net.batch_pct = 0;
            },
            |p: &mut Plan| p.sched.policy = 0,
            |p: &mut Plan| p.sched.net_pct = 0,
        ] {
            let mut p = best.clone();
            let before = format!("{:?}{:?}", p.net, p.sched);
            f(&mut p);
            if before != format!("{:?}{:?}", p.net, p.sched) && try_plan(p, &mut best, &mut runs) {
                progress = true;
            }
        }
    }
    match fails(&best, prop, kn, true) {
        Some((m, h, t)) => (Some(best), m, h, t, runs),
        None => (None, String::new(), 0, vec![], runs),
    }
}

pub fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR: {}: {}", path, e);
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR: {}: {}", path, e);
            return 2;
        }
    };
    before(&r.history);
    match fails(&r.plan, &r.property, &[], true) {
        None => {
            println!("not reproduced: {}", r.violation);
            0
        }
        Some((m, h, t)) => {
            for l in &t {
                println!("{}", l);
            }
            println!("{}", m);
            let same = format!("{:016x}", h) == r.hash && m == r.violation && t == r.trace;
            println!("execution {} the recorded one", if same { "identical to" } else { "DIFFERS from" });
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
    }
}

fn evidence(o: &Opts, s: &Stats, t0: Instant, violations: u64) {
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = s.runs as f64 / wall.max(0.001) * 3600.0;
    let v = serde_json::json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": format!("one evaluation is one simulated run of a plan (topology, workload, faults) and a schedule, both made from a seed derived from VERIF_SEED; runs are distinct if the hash over all scheduling steps, network events, reads, writes, handler invocations and call results with their times differs; a run is non-trivial if it exercised the property at least once ({})", rule(&o.prop)),
            "samples": s.samples,
            "runs_per_family": s.per_family,
            "seeds_per_hour": per_hour as u64,
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "distinct_executions": s.hashes.len(),
            "scheduling_steps": s.steps,
            "random_decisions": s.decisions,
            "property_exercised": s.relevant,
            "faults_injected": s.faults,
            "calls": {"ok": s.calls[0], "error": s.calls[1], "dropped": s.calls[2], "unfinished": s.calls[3]},
            "handler_invocations": s.handlers,
            "connections": s.conns,
            "repeated_runs": s.replayed,
            "repeated_runs_identical": s.replayed - s.diverged,
            "real_code": ["htrpc (all of /repo/src, unmodified)", "miasht 0.0.5", "handy_async 0.2.13", "httparse", "url", "serde", "futures 0.1", "fibers 0.1.13 (schedulers, pollers, timers, channels, TCP futures; executors replaced by the simulator's loop)"],
            "stubs": ["mio (sockets, epoll, kernel TCP, network)", "clocks and timers of the operating system", "getrandom", "thread scheduling"],
        },
        "assumptions": [
            "message framing by Content-Length; peers that are not under test speak HTTP/1.1 as far as attribution of responses needs it",
            "the simulated kernel follows Linux TCP semantics (see DESIGN.md)",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", o.dir);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, o.prop), serde_json::to_string_pretty(&v).unwrap() + "\n");
}
fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "a handler was invoked",
        "C02" => "a call succeeded",
        "C03" | "C14" => "a call was made",
        "C04" => "a stream was cut, or a scripted peer was involved",
        "C05" => "a connection carried responses",
        "C06" => "entry points were registered or requests dispatched",
        "C07" => "a request with a prescribed answer was made",
        "C08" => "a misbehaving client or an accept error occurred",
        "C09" | "C10" => "pooled calls were made",
        "C11" => "a call failed or was dropped",
        "C12" | "C13" => "a connection attempt was not established",
        "C15" => "a scripted server answered",
        "C16" => "a handler was cloned",
        _ => "",
    }
}

/// Runs many seeds of a family and prints all violations (for development).
pub fn survey(fam: &'static str, base: u64, n: u64, jobs: usize, only: Option<&str>) {
    let next = Arc::new(AtomicU64::new(0));
    let out: Arc<Mutex<Vec<(u64, Vec<Violation>)>>> = Arc::new(Mutex::new(vec![]));
    let tot = Arc::new(Mutex::new(Stats::default()));
    let t0 = Instant::now();
    let hs: Vec<_> = (0..jobs)
        .map(|_| {
            let (next, out, tot) = (next.clone(), out.clone(), tot.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let seed = seed_at(base, i);
                let t1 = Instant::now();
                match run(Arc::new(families::make(fam, seed)), false) {
                    Ok(f) => {
                        let v = oracle::judge(&f);
                        absorb(&mut tot.lock().unwrap(), "C03", fam, &f);
                        out.lock().unwrap().push((seed, v));
                    }
                    Err(e) => println!("HARNESS ERROR seed {}: {}", seed, e),
                }
                if t1.elapsed().as_secs() > 5 {
                    println!("slow: seed {} took {:?}", seed, t1.elapsed());
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let s = tot.lock().unwrap();
    println!(
        "{}: {} runs in {:.1} s, {} distinct, {} steps, calls {:?}, handlers {}, faults {:?}",
        fam,
        s.runs,
        t0.elapsed().as_secs_f64(),
        s.hashes.len(),
        s.steps,
        s.calls,
        s.handlers,
        s.faults
    );
    let o = out.lock().unwrap();
    let mut per: BTreeMap<&str, Vec<(u64, String)>> = BTreeMap::new();
    for (seed, vs) in o.iter() {
        for v in vs {
            per.entry(v.prop).or_default().push((*seed, v.msg.clone()));
        }
    }
    for (p, mut l) in per {
        if only.map_or(false, |o| o != p) {
            continue;
        }
        l.sort();
        println!("== {} : {} violations", p, l.len());
        for (s, m) in l.iter().take(if only.is_some() { 25 } else { 4 }) {
            println!("   {}: {}", s, m);
        }
    }
}

/// Same seeds on different numbers of workers, compared run by run.
pub fn determinism(base: u64, n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    for fam in families::FAMILIES {
        let mut res: Vec<BTreeMap<u64, (u64, u64, usize)>> = vec![];
        for jobs in [1usize, 8, 3] {
            let next = Arc::new(AtomicU64::new(0));
            let out = Arc::new(Mutex::new(BTreeMap::new()));
            let hs: Vec<_> = (0..jobs)
                .map(|_| {
                    let (next, out) = (next.clone(), out.clone());
                    std::thread::spawn(move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            return;
                        }
                        let seed = seed_at(base, i);
                        if let Ok(f) = run(Arc::new(families::make(fam, seed)), false) {
                            out.lock().unwrap().insert(seed, (f.hash, f.decisions, f.run.calls.len()));
                        }
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            let m = out.lock().unwrap().clone();
            res.push(m);
        }
        for (s, v) in &res[0] {
            total += 1;
            if res[1].get(s) != Some(v) || res[2].get(s) != Some(v) {
                bad += 1;
                println!("{} seed {} differs: {:?} {:?} {:?}", fam, s, v, res[1].get(s), res[2].get(s));
            }
        }
    }
    println!("{} seeds, each run three times (1, 8 and 3 workers): {} differ", total, bad);
    if bad > 0 {
        2
    } else {
        0
    }
}

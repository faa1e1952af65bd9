//! Runs one plan: processes with scheduler and poller threads, sessions, faults, main loop.
use crate::actors::{Actor, RawClient, RawServer, Served};
use crate::ctx::{self, CallRec, Outcome, Run, RunRef, Snap};
use crate::plan::*;
use crate::procs::{self, Via};
use crate::threads::Worker;
use fibers::fiber::{Scheduler, SchedulerHandle};
use fibers::io::poll::Poller;
use fibers::sync::oneshot;
use fibers::time::timer::{self, Timeout};
use fibers::{BoxSpawn, Spawn};
use futures::{Async, Future, Poll};
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use mio::sim::{self, AddrMode, Cut, CutMode, Nanos, NetCfg, ProcId, World, WorldRef, MS, SEC, US};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- processes

fn duration(ms: u64) -> Duration {
    if ms == u64::MAX {
        Duration::MAX
    } else {
        Duration::from_millis(ms)
    }
}
/// A logger that formats every record with its values (and throws the text away).
struct Formatting;
impl slog::Drain for Formatting {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, record: &slog::Record, values: &slog::OwnedKVList) -> Result<(), slog::Never> {
        use slog::KV;
        struct Text(String);
        impl slog::Serializer for Text {
            fn emit_arguments(&mut self, key: slog::Key, val: &std::fmt::Arguments) -> slog::Result {
                use std::fmt::Write;
                write!(self.0, "{}={} ", key, val).unwrap();
                Ok(())
            }
        }
        let mut t = Text(record.msg().to_string());
        let _ = record.kv().serialize(record, &mut t);
        let _ = values.serialize(record, &mut t);
        Ok(())
    }
}

#[derive(Clone)]
pub struct RoundRobin {
    handles: Vec<SchedulerHandle>,
    next: Arc<AtomicUsize>,
}
impl Spawn for RoundRobin {
    fn spawn_boxed(&self, f: Box<dyn Future<Item = (), Error = ()> + Send>) {
        let i = self.next.fetch_add(1, Ordering::SeqCst) % self.handles.len();
        self.handles[i].spawn_boxed(f)
    }
}

pub enum Sched {
    Here(Scheduler),
    Thread(Worker),
}
pub struct Node {
    pub pid: ProcId,
    pub name: String,
    scheds: Vec<Sched>,
    pollers: Vec<Poller>,
    spawner: RoundRobin,
    paused: Nanos,
}
impl Node {
    fn new(pid: ProcId, name: String, threads: usize, pollers: usize, os_threads: bool) -> Node {
        let mut ps = vec![];
        for _ in 0..pollers.max(1) {
            ps.push(Poller::new().expect("poller"));
        }
        let mut ss = vec![];
        let mut handles = vec![];
        for i in 0..threads.max(1) {
            let s = Scheduler::new(ps[i % ps.len()].handle());
            handles.push(s.handle());
            ss.push(if os_threads {
                Sched::Thread(Worker::new(s))
            } else {
                Sched::Here(s)
            });
        }
        Node {
            pid,
            name,
            scheds: ss,
            pollers: ps,
            spawner: RoundRobin {
                handles,
                next: Arc::new(AtomicUsize::new(0)),
            },
            paused: 0,
        }
    }
}

// ---------------------------------------------------------------- fibers of the workload

/// What a client process holds on to while it runs: clients that are used again and again, and futures
/// of calls that have succeeded.
#[derive(Default)]
struct Kept {
    directs: std::collections::BTreeMap<std::net::SocketAddr, htrpc::RpcClient>,
    done: Vec<procs::CallFuture>,
}
type KeptRef = std::sync::Arc<std::sync::Mutex<Kept>>;

struct Session {
    run: RunRef,
    kept: KeptRef,
    client: usize,
    phase: usize,
    task: usize,
    seed: u64,
    ops: VecDeque<OpPlan>,
    pool: Option<RpcClientPoolHandle>,
    cur: Option<Cur>,
}
enum Cur {
    Sleep(Timeout),
    Call {
        rec: usize,
        fut: Option<procs::CallFuture>,
        polls: u64,
        cancel: Option<Timeout>,
        cancel_polls: Option<u64>,
    },
}
impl Session {
    /// (a session that was stuck at the end of its phase starts nothing afterwards)
    fn next_op(&mut self) -> Option<OpPlan> {
        if ctx::lock(&self.run).phase != self.phase {
            self.ops.clear();
        }
        self.ops.pop_front()
    }
    fn begin(&mut self, c: &CallPlan) -> Cur {
        let via = match (&self.pool, c.pooled) {
            (Some(h), true) => Via::Pool(h),
            _ => Via::Direct,
        };
        let pooled = matches!(via, Via::Pool(_));
        let (start, start_ev) = {
            let mut r = ctx::lock(&self.run);
            r.note(&format!(
                "call {} starts: {:?} to {}{}",
                c.id,
                c.kind,
                c.to,
                if pooled { " (pooled)" } else { "" }
            ));
            r.delays.insert(c.id, c.delay_us);
            r.levels.insert(c.id, c.level);
            r.now()
        };
        let mut kept = self.kept.lock().unwrap_or_else(|e| e.into_inner());
        if c.id % 3 == 0 {
            kept.directs.remove(&c.to);
        }
        let direct = kept.directs.entry(c.to).or_insert_with(|| htrpc::RpcClient::new(c.to));
        let st = procs::start(c.kind, via, direct, c.to, c.id, c.level, self.seed);
        drop(kept);
        let mut r = ctx::lock(&self.run);
        let rec = r.calls.len();
        r.by_id.insert(c.id, rec);
        r.calls.push(CallRec {
            id: c.id,
            client: self.client,
            to: c.to,
            kind: c.kind,
            pooled,
            phase: self.phase,
            task: self.task,
            req: st.req,
            must: st.must,
            expect: st.expect,
            delay_us: c.delay_us,
            start,
            start_ev,
            end: 0,
            end_ev: 0,
            out: None,
            problem: None,
            cancels: c.cancel_us.is_some() || c.cancel_polls.is_some(),
            wire: st.wire,
        });
        Cur::Call {
            rec,
            fut: Some(st.fut),
            polls: 0,
            cancel: c
                .cancel_us
                .map(|u| timer::timeout(Duration::from_micros(u))),
            cancel_polls: c.cancel_polls,
        }
    }
    /// A future may be kept although its call has succeeded. (One that failed may hold what it was
    /// doing until it is dropped.)
    fn over(&self, fut: &mut Option<procs::CallFuture>, rec: usize) {
        if let Some(f) = fut.take() {
            if rec % 3 == 1 {
                self.kept.lock().unwrap_or_else(|e| e.into_inner()).done.push(f);
            }
        }
    }
    fn finish(&self, rec: usize, out: Outcome, problem: Option<u16>) {
        let mut r = ctx::lock(&self.run);
        let (end, ev) = r.now();
        let id = r.calls[rec].id;
        let s = match &out {
            Outcome::Ok(s) => format!("ok {}", s),
            Outcome::Err(s) => format!("error {}", s),
            Outcome::Cancelled => "dropped".to_string(),
        };
        let mut s = s;
        if s.len() > 300 {
            let mut k = 300;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
        }
        r.note(&format!("call {} ends: {}", id, s));
        let c = &mut r.calls[rec];
        c.end = end;
        c.end_ev = ev;
        c.out = Some(out);
        c.problem = problem;
    }
}
impl Future for Session {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        loop {
            let mut cur = match self.cur.take() {
                Some(c) => c,
                None => match self.next_op() {
                    None => {
                        let mut r = ctx::lock(&self.run);
                        let t = self.task;
                        if r.phase == self.phase {
                            r.done[t] = true;
                        }
                        return Ok(Async::Ready(()));
                    }
                    Some(OpPlan::Sleep { us }) => {
                        Cur::Sleep(timer::timeout(Duration::from_micros(us)))
                    }
                    Some(OpPlan::Call(c)) => self.begin(&c),
                },
            };
            match cur {
                Cur::Sleep(ref mut t) => {
                    if let Ok(Async::NotReady) = t.poll() {
                        self.cur = Some(cur);
                        return Ok(Async::NotReady);
                    }
                }
                Cur::Call {
                    rec,
                    ref mut fut,
                    ref mut polls,
                    ref mut cancel,
                    cancel_polls,
                } => {
                    if cancel_polls.map_or(false, |n| *polls >= n) {
                        *fut = None;
                        self.finish(rec, Outcome::Cancelled, None);
                        continue;
                    }
                    *polls += 1;
                    match fut.as_mut().unwrap().poll() {
                        Ok(Async::Ready((v, p))) => {
                            self.over(fut, rec);
                            self.finish(rec, Outcome::Ok(v), p)
                        }
                        Err(e) => {
                            *fut = None;
                            self.finish(rec, Outcome::Err(e), None)
                        }
                        Ok(Async::NotReady) => {
                            if let Some(ref mut t) = *cancel {
                                if let Ok(Async::NotReady) = t.poll() {
                                } else {
                                    *fut = None;
                                    self.finish(rec, Outcome::Cancelled, None);
                                    continue;
                                }
                            }
                            self.cur = Some(cur);
                            return Ok(Async::NotReady);
                        }
                    }
                }
            }
        }
    }
}

struct PoolTask {
    pool: RpcClientPool,
    kill: oneshot::Receiver<()>,
    client: usize,
    run: RunRef,
}
impl Future for PoolTask {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if let Ok(Async::NotReady) = self.kill.poll() {
            match self.pool.poll() {
                Ok(Async::NotReady) => Ok(Async::NotReady),
                r => {
                    let mut g = ctx::lock(&self.run);
                    g.note("the pool's future ended by itself");
                    g.pool_exits.push((self.client, format!("{:?}", r)));
                    Ok(Async::Ready(()))
                }
            }
        } else {
            Ok(Async::Ready(()))
        }
    }
}
impl Drop for PoolTask {
    fn drop(&mut self) {
        // the pool itself is dropped right after this
        let mut g = ctx::lock(&self.run);
        g.note("pool dropped");
        g.pool_dropped[self.client] = true;
    }
}

struct ServerTask {
    server: Option<htrpc::RpcServer>,
    stop: oneshot::Receiver<()>,
    idx: usize,
    rival: bool,
    run: RunRef,
}
impl Future for ServerTask {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if let Ok(Async::Ready(())) = self.stop.poll() {
            self.server = None;
            let mut g = ctx::lock(&self.run);
            let (now, ev) = g.now();
            g.note(&format!("server {} future dropped", self.idx));
            g.stops.push((self.idx, now, ev));
            return Ok(Async::Ready(()));
        }
        match self.server.as_mut().expect("running").poll() {
            Ok(Async::NotReady) => Ok(Async::NotReady),
            r => {
                let mut g = ctx::lock(&self.run);
                let now = g.now().0;
                if self.rival {
                    g.note("the rival server's future ends");
                    let s = format!("{:?}", r.as_ref().map_err(|e| e.to_string()));
                    g.rival_exits.push((self.idx, r.is_err(), s));
                    return Ok(Async::Ready(()));
                }
                let s = match r {
                    Err(e) => e.to_string().lines().next().unwrap_or("").to_string(),
                    _ => "finished".to_string(),
                };
                g.note(&format!("server {} future ends: {}", self.idx, s));
                g.exits.push((self.idx, now, s));
                Ok(Async::Ready(()))
            }
        }
    }
}

// ---------------------------------------------------------------- the simulation

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Unit {
    Sched(usize, usize),
    Poller(usize, usize),
    Act(usize),
}
pub struct Panic {
    pub node: String,
    pub client: bool,
    pub msg: String,
}
pub struct Sim {
    plan: Arc<Plan>,
    w: WorldRef,
    run: RunRef,
    nodes: Vec<Node>,
    clients: Vec<usize>,
    servers: Vec<Option<usize>>,
    pools: Vec<Option<RpcClientPoolHandle>>,
    kept: Vec<KeptRef>,
    kills: Vec<Option<oneshot::Sender<()>>>,
    stoppers: Vec<Option<oneshot::Sender<()>>>,
    idle_stoppers: Vec<oneshot::Sender<()>>,
    raw_servers: usize,
    actors: Vec<Box<dyn Actor>>,
    served: Arc<Mutex<Vec<Served>>>,
    steps: u64,
    next_pid: ProcId,
    dead: BTreeMap<usize, ()>,
    rr: usize,
    prio: BTreeMap<Unit, u64>,
    wait: BTreeMap<Unit, u64>,
    sticky: Option<Unit>,
    pub panic: Option<Panic>,
    pub over_steps: bool,
    busy_since: Vec<Option<Nanos>>,
    lag: Vec<Nanos>,
}

pub fn make_world(plan: &Plan, trace: bool) -> WorldRef {
    let n = &plan.net;
    let cfg = NetCfg {
        lat_min: n.lat_min_us * US,
        lat_max: n.lat_max_us * US,
        seg_mode: n.seg_mode,
        short_read_pct: n.short_read_pct,
        short_write_pct: n.short_write_pct,
        spurious_pct: n.spurious_pct,
        batch_pct: n.batch_pct,
        cap: n.cap,
        backlog: n.backlog,
    };
    let mut w = World::new(plan.seed, plan.limit, cfg, trace);
    for a in &plan.accept_errs {
        w.accept_errs.insert((a.addr, a.nth), a.errno);
    }
    Arc::new(Mutex::new(w))
}

fn cut_of(c: &CutPlan) -> Cut {
    Cut {
        dir: c.dir,
        off: c.off,
        mode: match c.mode {
            0 => CutMode::Rst,
            1 => CutMode::Eof,
            _ => CutMode::Stall(c.us * US),
        },
    }
}

impl Sim {
    pub fn new(plan: Arc<Plan>, w: WorldRef, run: RunRef) -> Sim {
        Sim {
            plan,
            w,
            run,
            nodes: vec![],
            clients: vec![],
            servers: vec![],
            pools: vec![],
            kept: vec![],
            kills: vec![],
            stoppers: vec![],
            idle_stoppers: vec![],
            raw_servers: 0,
            actors: vec![],
            served: Arc::new(Mutex::new(vec![])),
            steps: 0,
            next_pid: 1,
            dead: BTreeMap::new(),
            rr: 0,
            prio: BTreeMap::new(),
            wait: BTreeMap::new(),
            sticky: None,
            panic: None,
            over_steps: false,
            busy_since: vec![],
            lag: vec![],
        }
    }
    fn pid(&mut self, ip: std::net::IpAddr) -> ProcId {
        let p = self.next_pid;
        self.next_pid += 1;
        ctx::wlock(&self.w).proc_ip.insert(p, ip);
        p
    }
    fn start_server(&mut self, i: usize, rival: Option<Option<i32>>) {
        let sp = self.plan.servers[i].clone();
        let pid = self.pid(sp.addr.ip());
        ctx::wlock(&self.w).cur_proc = pid;
        if let Some(Some(e)) = rival {
            ctx::wlock(&self.w).bind_err = Some((pid, e));
        }
        let rival = rival.is_some();
        let node = Node::new(
            pid,
            format!("{} {}", if rival { "rival of server" } else { "server" }, i),
            sp.threads,
            sp.pollers,
            self.plan.os_threads,
        );
        let mut b = htrpc::RpcServerBuilder::new(sp.addr);
        if sp.logger {
            b.set_logger(slog::Logger::root(Formatting, slog::o!("server" => i)));
        }
        let mut errs = vec![];
        if sp.routed {
            for slot in 0..self.plan.table.len() {
                let ok = procs::register(procs::Kind::Dyn(slot as u8), &mut b, i, Some(slot));
                errs.push((slot, ok));
            }
        } else {
            for k in procs::SERVED {
                let ok = procs::register(*k, &mut b, i, None);
                assert!(ok, "standard procedures register");
            }
        }
        let server = b.start(node.spawner.clone());
        let (tx, rx) = oneshot::channel();
        node.spawner.spawn(ServerTask {
            server: Some(server),
            stop: rx,
            idx: i,
            rival,
            run: self.run.clone(),
        });
        ctx::lock(&self.run).reg_errors = errs;
        let n = self.nodes.len();
        self.nodes.push(node);
        if rival {
            self.idle_stoppers.push(tx);
            return;
        }
        self.servers[i] = Some(n);
        if let Some(old) = self.stoppers[i].replace(tx) {
            self.idle_stoppers.push(old);
        }
    }
    fn start_client(&mut self, i: usize) {
        let cp = self.plan.clients[i].clone();
        let pid = self.pid(client_ip(i));
        ctx::wlock(&self.w).cur_proc = pid;
        let node = Node::new(pid, format!("client {}", i), cp.threads, cp.pollers, false);
        let mut handle = None;
        let mut kill = None;
        if let Some(pp) = cp.pool {
            let mut pool = match pp.size {
                Some(n) => RpcClientPool::with_pool_size(n),
                None => RpcClientPool::new(),
            };
            if let Some(ms) = pp.suspend_ms {
                pool.set_suspended_duration(duration(ms));
            }
            if let Some(ms) = pp.timeout_ms {
                pool.set_connect_timeout(duration(ms));
            }
            handle = Some(pool.handle());
            let (tx, rx) = oneshot::channel();
            kill = Some(tx);
            node.spawner.spawn(PoolTask {
                pool,
                kill: rx,
                client: i,
                run: self.run.clone(),
            });
        }
        self.clients.push(self.nodes.len());
        self.nodes.push(node);
        self.pools.push(handle);
        self.kept.push(Default::default());
        self.kills.push(kill);
        ctx::lock(&self.run).client_pids.push(pid);
    }
    pub fn go(&mut self) {
        let plan = self.plan.clone();
        ctx::lock(&self.run).pool_dropped = vec![false; plan.clients.len()];
        self.servers = vec![None; plan.servers.len()];
        self.stoppers = plan.servers.iter().map(|_| None).collect();
        for i in 0..plan.servers.len() {
            self.start_server(i, None);
        }
        for i in 0..plan.clients.len() {
            self.start_client(i);
        }
        for (i, r) in plan.raws.iter().enumerate() {
            let pid = self.pid(r.addr.ip());
            let a = RawServer::new(i, pid, r.clone(), self.served.clone(), &mut ctx::wlock(&self.w));
            self.actors.push(Box::new(a));
        }
        self.raw_servers = self.actors.len();
        self.warm_up();
        for i in 0..plan.phases.len() {
            self.phase(i);
            if self.panic.is_some() || self.over_steps {
                break;
            }
        }
        ctx::lock(&self.run).served = std::mem::take(&mut self.served.lock().unwrap());
        ctx::lock(&self.run).steps = self.steps;
    }
    /// Lets every server get to the point of accepting connections.
    fn warm_up(&mut self) {
        for _ in 0..20_000 {
            {
                let w = ctx::wlock(&self.w);
                if self.plan.servers.iter().all(|s| w.is_listening(s.addr)) {
                    return;
                }
            }
            let units = self.runnable();
            if units.is_empty() {
                return;
            }
            let u = self.pick(&units);
            if !self.step(u) {
                return;
            }
            let mut w = ctx::wlock(&self.w);
            let t = w.now + self.plan.sched.step_ns;
            w.advance_to(t);
        }
    }
    fn phase(&mut self, idx: usize) {
        let ph = self.plan.phases[idx].clone();
        let start = ctx::wlock(&self.w).now;
        let clients = self.open_conns();
        {
            let mut r = ctx::lock(&self.run);
            r.phase = idx;
            r.done = vec![false; ph.tasks.len()];
            let (_, ev) = r.now();
            r.note(&format!("== phase {} {}", idx, ph.name));
            let first_conn = ctx::wlock(&r.world.clone()).conn_count();
            r.snaps.push(Snap {
                start,
                start_ev: ev,
                first_conn,
                open_before: clients,
                ..Default::default()
            });
        }
        for (t, task) in ph.tasks.iter().enumerate() {
            match task {
                TaskPlan::Session { client, ops } => {
                    let s = Session {
                        run: self.run.clone(),
                        client: *client,
                        phase: idx,
                        task: t,
                        seed: self.plan.seed,
                        ops: ops.iter().cloned().collect(),
                        pool: self.pools[*client].clone(),
                        kept: self.kept[*client].clone(),
                        cur: None,
                    };
                    self.nodes[self.clients[*client]].spawner.spawn(s);
                }
                TaskPlan::Raw { good, ops } => {
                    let ip = format!("10.0.4.{}", 1 + (idx * 16 + t) % 200).parse().unwrap();
                    let pid = self.pid(ip);
                    self.actors.push(Box::new(RawClient::new(
                        pid,
                        idx,
                        t,
                        *good,
                        ops.clone(),
                        self.run.clone(),
                    )));
                }
            }
        }
        let mut faults: VecDeque<FaultPlan> = {
            let mut f = ph.faults.clone();
            f.sort_by_key(|f| f.at_us);
            f.into_iter().collect()
        };
        {
            let faulty = |p: &PhasePlan| !p.healthy && !p.recover;
            let mut w = ctx::wlock(&self.w);
            if idx > 0 && !faulty(&ph) {
                w.drop_cuts();
            }
            let first = self.plan.phases.iter().position(faulty);
            for c in &self.plan.cuts {
                // connections break only once the faults begin
                if (c.mode >= 2 && idx == 0) || (c.mode < 2 && first == Some(idx)) {
                    w.arm_cut(c.conn, cut_of(c));
                }
            }
        }
        let deadline = start + ph.max_ms * MS;
        let mut done_at: Option<Nanos> = None;
        let mut quiescent = false;
        let mut timeout = false;
        loop {
            let now = ctx::wlock(&self.w).now;
            while faults.front().map_or(false, |f| start + f.at_us * US <= now) {
                let mut f = faults.pop_front().unwrap();
                if let Fault::StartServer { server } = f.f {
                    // (a handover waits until the address is free, within reason)
                    let busy = ctx::wlock(&self.w).is_listening(self.plan.servers[server].addr);
                    if busy && self.servers[server].is_none() && now < start + 2 * SEC + f.at_us % 1000 * US {
                        f.at_us += 1000;
                        faults.push_back(f);
                        faults.make_contiguous().sort_by_key(|f| f.at_us);
                        continue;
                    }
                }
                self.fire(&f.f);
            }
            self.steps += 1;
            if self.steps > self.plan.sched.max_steps {
                self.over_steps = true;
                break;
            }
            let run_units = self.runnable();
            self.measure_lag(&run_units, now);
            let tasks_done = self.tasks_done();
            if tasks_done && faults.is_empty() && done_at.is_none() {
                done_at = Some(now);
            }
            if run_units.is_empty() {
                let mut next: Option<Nanos> = None;
                let mut add = |t: Option<Nanos>| {
                    if let Some(t) = t {
                        next = Some(next.map_or(t, |n: Nanos| n.min(t)));
                    }
                };
                add(ctx::wlock(&self.w).next_event());
                add(faults.front().map(|f| start + f.at_us * US));
                let inst = Instant::now();
                for (i, n) in self.nodes.iter_mut().enumerate() {
                    if self.dead.contains_key(&i) {
                        continue;
                    }
                    if n.paused > now {
                        add(Some(n.paused));
                        continue;
                    }
                    for p in &mut n.pollers {
                        if let Some(d) = p.sim_next_deadline() {
                            let d = d.saturating_duration_since(inst);
                            let ns = d.as_nanos().min(u64::MAX as u128 / 4) as u64;
                            add(Some(now + ns));
                        }
                    }
                }
                {
                    let w = ctx::wlock(&self.w);
                    for a in &self.actors {
                        add(a.next_wake(&w));
                    }
                }
                match next {
                    None => {
                        quiescent = true;
                        break;
                    }
                    Some(t) if done_at.map_or(false, |d| t > d + 3 * SEC) => {
                        // only far timers are left
                        quiescent = ctx::wlock(&self.w).next_event().is_none();
                        break;
                    }
                    Some(t) if t > deadline => {
                        timeout = !tasks_done;
                        break;
                    }
                    Some(t) => {
                        let mut w = ctx::wlock(&self.w);
                        let t = t.max(w.now);
                        w.advance_to(t);
                    }
                }
                continue;
            }
            if now > deadline {
                timeout = !tasks_done;
                break;
            }
            // sometimes the network moves although threads could run
            {
                let mut w = ctx::wlock(&self.w);
                let pct = self.plan.sched.net_pct;
                if pct > 0 && w.ch.pct(pct) {
                    if let Some(t) = w.next_event() {
                        if t < now + 2 * MS {
                            w.advance_to(t);
                            continue;
                        }
                    }
                }
            }
            let u = self.pick(&run_units);
            if !self.step(u) {
                break;
            }
            let mut w = ctx::wlock(&self.w);
            let t = w.now + self.plan.sched.step_ns;
            w.advance_to(t);
        }
        // end of phase
        let raw: Vec<_> = self.actors.drain(self.raw_servers..).collect();
        let mut raw_left = false;
        for mut a in raw {
            if !a.done() {
                raw_left = true;
                a.finish(&mut ctx::wlock(&self.w));
            }
            drop(a);
        }
        let open = self.open_conns();
        let unreleased = ctx::wlock(&self.w).unreleased_server_conns();
        let listening = {
            let w = ctx::wlock(&self.w);
            self.plan.servers.iter().map(|s| w.is_listening(s.addr)).collect()
        };
        let mut r = ctx::lock(&self.run);
        let (end, ev) = r.now();
        let stuck: Vec<usize> = (0..ph.tasks.len())
            .filter(|&t| matches!(ph.tasks[t], TaskPlan::Session { .. }) && !r.done[t])
            .collect();
        let s = r.snaps.last_mut().unwrap();
        s.end = end;
        s.end_ev = ev;
        s.open = open;
        s.quiescent = quiescent;
        s.stuck_tasks = stuck;
        s.timeout = timeout;
        s.raw_left = raw_left;
        s.listening = listening;
        s.unreleased = unreleased;
        r.lag = self.lag.clone();
    }
    fn open_conns(&self) -> Vec<Vec<usize>> {
        let w = ctx::wlock(&self.w);
        self.clients
            .iter()
            .map(|&n| w.open_client_conns(self.nodes[n].pid))
            .collect()
    }
    fn tasks_done(&self) -> bool {
        let r = ctx::lock(&self.run);
        let ph = &self.plan.phases[r.phase];
        ph.tasks
            .iter()
            .enumerate()
            .all(|(i, t)| matches!(t, TaskPlan::Raw { .. }) || r.done[i])
            && self.actors[self.raw_servers..].iter().all(|a| a.done())
    }
    fn runnable(&mut self) -> Vec<Unit> {
        let now = ctx::wlock(&self.w).now;
        let mut v = vec![];
        for (i, n) in self.nodes.iter_mut().enumerate() {
            if self.dead.contains_key(&i) || n.paused > now {
                continue;
            }
            for (k, s) in n.scheds.iter_mut().enumerate() {
                let b = match s {
                    Sched::Here(s) => s.sim_has_work(),
                    Sched::Thread(t) => t.runnable(),
                };
                if b {
                    v.push(Unit::Sched(i, k));
                }
            }
            for (k, p) in n.pollers.iter_mut().enumerate() {
                if p.sim_has_work() {
                    v.push(Unit::Poller(i, k));
                }
            }
        }
        let w = ctx::wlock(&self.w);
        for (i, a) in self.actors.iter().enumerate() {
            if a.runnable(&w) {
                v.push(Unit::Act(i));
            }
        }
        v
    }
    /// Notes the longest time for which a client process had something to run without a break:
    /// by so much the schedule may have delayed anything in it.
    fn measure_lag(&mut self, v: &[Unit], now: Nanos) {
        for (cl, &n) in self.clients.iter().enumerate() {
            let busy = v.iter().any(|u| match u {
                Unit::Sched(k, _) | Unit::Poller(k, _) => *k == n,
                Unit::Act(_) => false,
            });
            while self.busy_since.len() <= cl {
                self.busy_since.push(None);
                self.lag.push(0);
            }
            match (self.busy_since[cl], busy) {
                (None, true) => self.busy_since[cl] = Some(now),
                (Some(t), _) => {
                    self.lag[cl] = self.lag[cl].max(now - t);
                    if !busy {
                        self.busy_since[cl] = None;
                    }
                }
                (None, false) => {}
            }
        }
    }
    fn pick(&mut self, v: &[Unit]) -> Unit {
        // fairness: nobody who could run waits for more than this many steps
        const CAP: u64 = 600;
        for u in v {
            *self.wait.entry(*u).or_insert(0) += 1;
        }
        let mut u = {
            let mut w = ctx::wlock(&self.w);
            match self.plan.sched.policy {
                0 => {
                    self.rr += 1;
                    v[self.rr % v.len()]
                }
                1 => v[w.ch.choose(v.len() as u64) as usize],
                2 => {
                    if w.ch.choose(40) == 1 {
                        let k = v[w.ch.choose(v.len() as u64) as usize];
                        let p = w.ch.choose(1000);
                        self.prio.insert(k, p);
                    }
                    for k in v {
                        if !self.prio.contains_key(k) {
                            let p = w.ch.choose(1000);
                            self.prio.insert(*k, p);
                        }
                    }
                    *v.iter().max_by_key(|k| self.prio[k]).unwrap()
                }
                3 => {
                    let keep = self.sticky.filter(|s| v.contains(s));
                    match keep {
                        Some(s) if w.ch.choose(12) != 1 => s,
                        _ => v[w.ch.choose(v.len() as u64) as usize],
                    }
                }
                p => {
                    let want: Vec<Unit> = v
                        .iter()
                        .cloned()
                        .filter(|k| match k {
                            Unit::Sched(..) => p == 4,
                            Unit::Poller(..) => p == 5,
                            Unit::Act(_) => true,
                        })
                        .collect();
                    let s = if want.is_empty() || w.ch.choose(30) == 1 { v.to_vec() } else { want };
                    s[w.ch.choose(s.len() as u64) as usize]
                }
            }
        };
        if let Some((k, n)) = v.iter().map(|k| (*k, self.wait[k])).max_by_key(|k| k.1) {
            if n > CAP {
                u = k;
            }
        }
        self.wait.insert(u, 0);
        self.sticky = Some(u);
        u
    }
    fn step(&mut self, u: Unit) -> bool {
        let (tag, a, b) = match u {
            Unit::Sched(n, k) => (20, n, k),
            Unit::Poller(n, k) => (21, n, k),
            Unit::Act(k) => (22, k, 0),
        };
        {
            let mut w = ctx::wlock(&self.w);
            w.mix(tag, a as u64, b as u64);
            w.step_ops = 0;
            match u {
                Unit::Sched(n, _) | Unit::Poller(n, _) => w.cur_proc = self.nodes[n].pid,
                Unit::Act(_) => {}
            }
        }
        match u {
            Unit::Act(k) => {
                self.actors[k].step(&mut ctx::wlock(&self.w));
                true
            }
            Unit::Poller(n, k) => {
                let p = &mut self.nodes[n].pollers[k];
                let r = catch_unwind(AssertUnwindSafe(|| p.poll(Some(Duration::from_secs(0)))));
                self.caught(n, r.map(|_| ()))
            }
            Unit::Sched(n, k) => {
                let r = match &mut self.nodes[n].scheds[k] {
                    Sched::Here(s) => catch_unwind(AssertUnwindSafe(|| s.run_once(false))),
                    Sched::Thread(t) => t.step(),
                };
                self.waits_for_handler(n, k);
                self.caught(n, r)
            }
        }
    }
    /// Does the thread wait for a lock while all who may hold it are running a handler's own code?
    fn waits_for_handler(&mut self, n: usize, k: usize) {
        let mut others = (0, 0);
        for (i, s) in self.nodes[n].scheds.iter().enumerate() {
            if let Sched::Thread(t) = s {
                if i != k && t.in_handler() {
                    others.0 += 1;
                } else if i != k && t.mid() && !t.blocked() {
                    others.1 += 1;
                }
            }
        }
        if let Sched::Thread(t) = &mut self.nodes[n].scheds[k] {
            t.waits = if t.blocked() && others.0 > 0 && others.1 == 0 { t.waits + 1 } else { 0 };
            if t.waits == 5 {
                ctx::lock(&self.run).handler_waits += 1;
            }
        }
    }
    fn caught(&mut self, n: usize, r: Result<(), Box<dyn std::any::Any + Send>>) -> bool {
        if let Err(e) = r {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            ctx::wlock(&self.w).note(&format!("{} panics: {}", self.nodes[n].name, msg));
            self.panic = Some(Panic {
                client: self.clients.contains(&n),
                node: self.nodes[n].name.clone(),
                msg,
            });
            return false;
        }
        true
    }
    fn fire(&mut self, f: &Fault) {
        {
            let mut r = ctx::lock(&self.run);
            let now = r.now().0;
            r.note(&format!("fault {:?}", f));
            r.fired.push((now, f.clone()));
        }
        match *f {
            Fault::Rst { conn } => ctx::wlock(&self.w).inject_rst(conn),
            Fault::KillServer { server, silent } => {
                if let Some(n) = self.servers[server].take() {
                    self.kill(n, silent);
                    if silent {
                        ctx::wlock(&self.w).host_down(self.plan.servers[server].addr.ip());
                    }
                }
            }
            Fault::StartServer { server } => {
                ctx::wlock(&self.w).host_up(self.plan.servers[server].addr.ip());
                if self.servers[server].is_none() {
                    ctx::wlock(&self.w).fault("process_restart");
                    self.start_server(server, None);
                }
            }
            Fault::StopServer { server } => {
                // (the process, its threads and the connections it accepted live on)
                self.servers[server] = None;
                if let Some(tx) = self.stoppers[server].take() {
                    ctx::wlock(&self.w).fault("server_stopped");
                    let _ = tx.send(());
                }
            }
            Fault::RivalServer { server, errno } => {
                let now = ctx::wlock(&self.w).now;
                ctx::lock(&self.run).rivals.push((server, now));
                self.start_server(server, Some(errno));
            }
            Fault::Partition { a, b, on } => ctx::wlock(&self.w).partition(a, b, on),
            Fault::Pause { client, idx, us } => {
                let n = if client {
                    Some(self.clients[idx])
                } else {
                    self.servers[idx]
                };
                if let Some(n) = n {
                    let mut w = ctx::wlock(&self.w);
                    w.fault("process_stall");
                    self.nodes[n].paused = w.now + us * US;
                }
            }
            Fault::WallJump { secs } => ctx::wlock(&self.w).wall_jump(secs * SEC as i64),
            Fault::Refuse { addr } => ctx::wlock(&self.w).set_addr_mode(addr, AddrMode::Refuse),
            Fault::Blackhole { addr } => ctx::wlock(&self.w).set_addr_mode(addr, AddrMode::Blackhole),
            Fault::ConnectErr { addr, errno } => {
                ctx::wlock(&self.w).set_addr_mode(addr, AddrMode::ConnectErr(errno))
            }
            Fault::Slow { addr, us } => ctx::wlock(&self.w).set_addr_mode(addr, AddrMode::Slow(us * US)),
            Fault::Normal { addr } => ctx::wlock(&self.w).set_addr_mode(addr, AddrMode::Normal),
            Fault::AcceptEmfile { addr, us } => {
                let mut w = ctx::wlock(&self.w);
                let t = w.now + us * US;
                w.accept_emfile_until.insert(addr, t);
            }
            Fault::DropPool { client } => {
                if let Some(tx) = self.kills[client].take() {
                    ctx::wlock(&self.w).fault("pool_dropped");
                    let _ = tx.send(());
                }
            }
        }
    }
    fn kill(&mut self, n: usize, silent: bool) {
        let pid = self.nodes[n].pid;
        ctx::wlock(&self.w).kill_process(pid, silent);
        self.dead.insert(n, ());
        // memory of the process is gone; its sockets were closed by the kernel above
        let node = &mut self.nodes[n];
        let s = std::mem::take(&mut node.scheds);
        let p = std::mem::take(&mut node.pollers);
        node.spawner.handles.clear();
        drop(s);
        drop(p);
    }
    /// Ends the simulation. After a panic nothing is dropped.
    pub fn close(mut self) {
        if self.panic.is_some() {
            for n in self.nodes.drain(..) {
                std::mem::forget(n);
            }
            for a in self.kills.drain(..).chain(self.stoppers.drain(..)) {
                std::mem::forget(a);
            }
            for a in self.idle_stoppers.drain(..) {
                std::mem::forget(a);
            }
            for a in self.kept.drain(..) {
                std::mem::forget(a);
            }
            return;
        }
        for k in &self.kept {
            let k = std::mem::take(&mut *k.lock().unwrap_or_else(|e| e.into_inner()));
            drop(k);
        }
        let nodes = std::mem::take(&mut self.nodes);
        for n in nodes {
            drop(n.scheds);
            drop(n.pollers);
        }
    }
}
#[allow(dead_code)]
fn _unused(_: BoxSpawn) {}

pub struct Finished {
    pub run: Run,
    pub panic: Option<Panic>,
    pub over_steps: bool,
    pub hash: u64,
    pub decisions: u64,
    pub sim_ns: Nanos,
}

/// Executes a plan on the calling thread (which must be fresh).
pub fn execute(plan: Arc<Plan>, trace: bool) -> Finished {
    crate::threads::HASH_SEED.with(|s| s.set(plan.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15)));
    let w = make_world(&plan, trace);
    sim::set_current(Some(w.clone()));
    let run: RunRef = Arc::new(Mutex::new(Run::new(plan.clone(), w.clone())));
    ctx::set(Some(run.clone()));
    let mut s = Sim::new(plan, w.clone(), run.clone());
    s.go();
    let panic = s.panic.take();
    let over_steps = s.over_steps;
    if panic.is_some() {
        s.panic = Some(Panic {
            node: String::new(),
            client: false,
            msg: String::new(),
        });
    }
    // the history ends here; what closing does to the sockets is not part of it
    let (hash, decisions, now) = {
        let w = ctx::wlock(&w);
        (w.hash, w.ch.count, w.now)
    };
    let mut rec = {
        let mut g = ctx::lock(&run);
        let p = g.plan.clone();
        let wr = g.world.clone();
        std::mem::replace(&mut *g, Run::new(p, wr))
    };
    rec.info = ctx::wlock(&w).info.clone();
    rec.faults = ctx::wlock(&w).faults.clone();
    rec.lines = ctx::wlock(&w).lines.take().unwrap_or_default();
    ctx::lock(&run).pool_dropped = vec![false; 16];
    s.close();
    sim::set_clock(None);
    Finished {
        run: rec,
        panic,
        over_steps,
        hash,
        decisions,
        sim_ns: now - SEC,
    }
}

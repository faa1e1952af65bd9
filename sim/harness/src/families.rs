//! Plans of simulated runs, made from a seed.
use crate::plan::*;
use crate::procs::{self, Body, Kind};
use crate::rng::Rng;
use crate::wire;
use std::net::{IpAddr, SocketAddr};

pub const FAMILIES: &[&str] = &[
    "fidelity", "faulty", "hostile", "routing", "pool", "connect", "rawserver", "threads", "lifecycle",
    "bystander",
];

pub fn make(family: &str, seed: u64) -> Plan {
    let salt = FAMILIES.iter().position(|f| *f == family).expect("family") as u64 + 100;
    let mut b = B::new(family, seed, Rng::sub(seed, salt));
    match family {
        "fidelity" => b.fidelity(),
        "faulty" => b.faulty(),
        "hostile" => b.hostile(),
        "routing" => b.routing(),
        "pool" => b.pool(),
        "connect" => b.connect(),
        "rawserver" => b.rawserver(),
        "lifecycle" => b.lifecycle(),
        "bystander" => b.bystander(),
        _ => b.threads(),
    }
    b.stretch();
    b.plan
}

struct B {
    r: Rng,
    id: u64,
    raw_id: u64,
    plan: Plan,
}

#[derive(Clone, Copy, Debug)]
enum Ty {
    Str,
    Bytes,
    Bool,
    /// signed, bits
    Int(bool, u8),
    Float,
    Const,
    Json,
}
#[derive(Clone, Debug)]
struct Field {
    name: &'static str,
    text: Vec<u8>,
    ty: Ty,
    opt: bool,
}
impl Field {
    fn new(name: &'static str, v: impl ToString, ty: Ty, opt: bool) -> Field {
        Field { name, text: v.to_string().into_bytes(), ty, opt }
    }
    fn bytes(name: &'static str, v: &procs::Bin, opt: bool) -> Field {
        Field { name, text: v.0.clone(), ty: Ty::Bytes, opt }
    }
}

fn phase(name: &str, healthy: bool) -> PhasePlan {
    PhasePlan {
        name: name.into(),
        tasks: vec![],
        faults: vec![],
        healthy,
        recover: false,
        max_ms: 120_000,
        bound_ms: 0,
    }
}
const CALLABLE: &[Kind] = &[
    Kind::Echo,
    Kind::Vars,
    Kind::Ints,
    Kind::Query,
    Kind::QMap,
    Kind::Header,
    Kind::PathOnly,
    Kind::UnitPath,
    Kind::BodyOnly,
    Kind::HeadM,
    Kind::Partial,
    Kind::Status,
    Kind::Problem,
    Kind::AllEnum,
    Kind::UnitEnum,
    Kind::ProbEnum,
    Kind::Root,
    Kind::Enc,
    Kind::HMap,
    Kind::NewT,
    Kind::Narrow,
    Kind::NarrowHdr,
    Kind::Missing,
    Kind::WrongMethod,
    Kind::BadType,
    Kind::Echo,
    Kind::Status,
];
/// small and always representable at level 0
const SIMPLE: &[Kind] = &[
    Kind::Echo,
    Kind::Status,
    Kind::BodyOnly,
    Kind::PathOnly,
    Kind::HeadM,
    Kind::Query,
];

impl B {
    fn new(family: &str, seed: u64, r: Rng) -> B {
        let mut r = r;
        set_ipv6(seed % 10 == 4);
        let net = Self::net(&mut r);
        let sched = Self::sched(&mut r);
        B {
            r,
            id: 1,
            raw_id: 500_000,
            plan: Plan {
                family: family.into(),
                seed,
                limit: u64::MAX,
                net,
                sched,
                servers: vec![],
                raws: vec![],
                clients: vec![],
                os_threads: false,
                table: vec![],
                phases: vec![],
                cuts: vec![],
                accept_errs: vec![],
            },
        }
    }
    fn net(r: &mut Rng) -> NetPlan {
        let (a, b) = *r.pick(&[(50u64, 300u64), (10, 50), (1, 1), (200, 5000), (1, 20_000)]);
        NetPlan {
            lat_min_us: a,
            lat_max_us: b,
            seg_mode: *r.pick(&[0u8, 1, 2, 3, 3]),
            short_read_pct: *r.pick(&[0u32, 0, 20, 60]),
            short_write_pct: *r.pick(&[0u32, 0, 30]),
            spurious_pct: *r.pick(&[0u32, 0, 10]),
            batch_pct: *r.pick(&[0u32, 0, 30]),
            cap: *r.pick(&[16_384usize, 65_536, 262_144]),
            backlog: 1024,
        }
    }
    fn sched(r: &mut Rng) -> SchedPlan {
        SchedPlan {
            policy: *r.pick(&[0u8, 1, 1, 2, 2, 3, 4, 5]),
            step_ns: *r.pick(&[200u64, 2000, 20_000]),
            net_pct: *r.pick(&[0u32, 10, 40]),
            max_steps: 1_500_000,
        }
    }
    fn next_id(&mut self) -> u64 {
        self.id += 1;
        self.id
    }
    fn next_raw(&mut self) -> u64 {
        self.raw_id += 1;
        self.raw_id
    }
    fn server(&mut self, addr: SocketAddr, routed: bool) {
        let threads = self.r.range(1, 3) as usize;
        let pollers = self.r.range(1, 2) as usize;
        let logger = self.r.chance(40);
        self.plan.servers.push(ServerPlan {
            addr,
            threads,
            pollers,
            routed,
            logger,
        });
    }
    fn client(&mut self, pool: Option<PoolPlan>) -> usize {
        let threads = self.r.range(1, 3) as usize;
        let pollers = self.r.range(1, 2) as usize;
        self.plan.clients.push(ClientPlan { threads, pollers, pool });
        self.plan.clients.len() - 1
    }
    fn pool_plan(&mut self, size: Option<usize>) -> PoolPlan {
        // (the greatest value stands for the greatest `Duration`)
        let most = |c: bool| if c { Some(u64::MAX) } else { None };
        let suspend_ms = most(self.r.chance(4));
        let timeout_ms = most(self.r.chance(4));
        let size = if size.is_some() && self.r.chance(3) { Some(usize::MAX) } else { size };
        PoolPlan { size, suspend_ms, timeout_ms }
    }
    fn call(&mut self, to: SocketAddr, kind: Kind, level: u8, pooled: bool) -> CallPlan {
        let id = self.next_id();
        CallPlan {
            id,
            to,
            kind,
            level,
            pooled,
            delay_us: 0,
            cancel_us: None,
            cancel_polls: None,
        }
    }
    fn delay(&mut self, c: &mut CallPlan, pct: u32, max_us: u64) {
        if self.r.chance(pct) {
            c.delay_us = self.r.range(1, max_us);
        }
    }
    fn cancel(&mut self, c: &mut CallPlan, pct: u32) {
        if self.r.chance(pct) {
            if self.r.chance(60) {
                c.cancel_polls = Some(self.r.below(6));
            } else {
                c.cancel_us = Some(self.r.range(1, 3000));
            }
        }
    }
    fn gap(&mut self, ops: &mut Vec<OpPlan>, pct: u32, max_us: u64) {
        if self.r.chance(pct) {
            let us = self.r.range(1, max_us);
            ops.push(OpPlan::Sleep { us });
        }
    }
    fn stalls(&mut self, n: u64) {
        for _ in 0..n {
            let c = CutPlan {
                conn: self.r.idx(8),
                dir: self.r.idx(2),
                off: self.offset(),
                mode: 2,
                us: self.r.range(100, 1_500_000),
            };
            self.plan.cuts.push(c);
        }
    }
    fn offset(&mut self) -> u64 {
        match self.r.below(6) {
            0 => self.r.below(20),
            1 | 2 => self.r.below(300),
            3 => self.r.below(1500),
            4 => self.r.below(10_000),
            _ => self.r.below(60_000),
        }
    }

    // ------------------------------------------------------------ long runs

    /// Hundreds of calls, one after the other, on a few connections.
    fn marathon(&mut self) {
        self.plan.net.lat_max_us = self.plan.net.lat_max_us.min(1000);
        self.plan.net.lat_min_us = self.plan.net.lat_min_us.min(self.plan.net.lat_max_us);
        self.plan.sched.max_steps = 10_000_000;
        let one = self.r.chance(50);
        let ns = if one { 1 } else { self.r.range(1, 2) as usize };
        for i in 0..ns {
            self.server(srv_addr(i), false);
        }
        let size = *self.r.pick(&[1usize, 2, 3, 1024]);
        self.client(Some(PoolPlan { size: Some(size), suspend_ms: Some(100), timeout_ms: None }));
        let pooled = *self.r.pick(&[100u32, 100, 100, 50, 0]);
        let mut left = self.log_range(300, 2000);
        if one && self.r.chance(8) {
            left = self.r.range(4000, 12_000);
        }
        let np = self.r.range(1, 3);
        for p in 0..np {
            let mut ph = phase(&format!("calls {}", p), true);
            ph.max_ms = 3_600_000;
            let nt = if one { 1 } else { self.r.range(1, 3) };
            for _ in 0..nt {
                let n = if p + 1 == np { left / nt } else { self.r.range(1, (left / (nt * 2)).max(1)) };
                let mut ops = vec![];
                for _ in 0..n {
                    let i = self.r.idx(ns);
                    let k = *self.r.pick(SIMPLE);
                    let direct = !self.r.chance(pooled);
                    let cp = self.call(srv_addr(i), k, 0, !direct);
                    ops.push(OpPlan::Call(cp));
                }
                ph.tasks.push(TaskPlan::Session { client: 0, ops });
            }
            left -= left / 2;
            self.plan.phases.push(ph);
        }
    }

    // ------------------------------------------------------------ fidelity

    fn fidelity(&mut self) {
        if self.plan.seed % 50 == 7 {
            return self.marathon();
        }
        let ns = self.r.range(1, 2) as usize;
        for i in 0..ns {
            self.server(srv_addr(i), false);
        }
        let nc = self.r.range(1, 2) as usize;
        for _ in 0..nc {
            let p = match self.r.below(4) {
                0 => None,
                1 => Some(self.pool_plan(None)),
                _ => {
                    let s = *self.r.pick(&[0usize, 1, 2, 8]);
                    Some(self.pool_plan(Some(s)))
                }
            };
            self.client(p);
        }
        let level = *self.r.pick(&[1u8, 2, 2]);
        let focus = if self.r.chance(40) { Some(*self.r.pick(CALLABLE)) } else { None };
        let np = self.r.range(1, 2);
        for p in 0..np {
            let mut ph = phase(&format!("calls {}", p), true);
            for c in 0..nc {
                for _ in 0..self.r.range(1, 3) {
                    let mut ops = vec![];
                    for _ in 0..self.r.range(1, 6) {
                        let i = self.r.idx(ns);
                        let k = if self.r.chance(6) {
                            Kind::Big
                        } else {
                            focus.unwrap_or_else(|| *self.r.pick(CALLABLE))
                        };
                        let pooled = self.r.chance(80);
                        let mut cp = self.call(srv_addr(i), k, level, pooled);
                        self.delay(&mut cp, 15, 30_000);
                        self.cancel(&mut cp, 4);
                        ops.push(OpPlan::Call(cp));
                        self.gap(&mut ops, 15, 20_000);
                    }
                    ph.tasks.push(TaskPlan::Session { client: c, ops });
                }
            }
            if self.r.chance(20) {
                let cl = self.r.chance(50);
                let idx = if cl { self.r.idx(nc) } else { self.r.idx(ns) };
                let at_us = self.r.below(20_000);
                let us = self.r.range(1000, 300_000);
                ph.faults.push(FaultPlan { at_us, f: Fault::Pause { client: cl, idx, us } });
            }
            self.plan.phases.push(ph);
        }
        if self.r.chance(25) {
            let n = self.r.range(1, 4);
            self.stalls(n);
        }
    }

    // ------------------------------------------------------------ faulty

    fn faulty(&mut self) {
        if self.plan.seed % 50 == 8 {
            return self.marathon();
        }
        let ns = self.r.range(1, 2) as usize;
        for i in 0..ns {
            self.server(srv_addr(i), false);
        }
        let nc = self.r.range(1, 2) as usize;
        let suspend = *self.r.pick(&[50u64, 200, 1000]);
        let timeout = *self.r.pick(&[200u64, 500, 1000]);
        for _ in 0..nc {
            let size = *self.r.pick(&[0usize, 1, 2, 8, 1024]);
            let p = if self.r.chance(85) {
                Some(PoolPlan {
                    size: Some(size),
                    suspend_ms: Some(suspend),
                    timeout_ms: Some(timeout),
                })
            } else {
                None
            };
            self.client(p);
        }
        let level = *self.r.pick(&[0u8, 0, 1, 2]);
        if self.r.chance(50) {
            // some idle connections to begin with
            let mut ph = phase("warm", true);
            for c in 0..nc {
                for _ in 0..self.r.range(1, 3) {
                    let i = self.r.idx(ns);
                    let k = *self.r.pick(SIMPLE);
                    let cp = self.call(srv_addr(i), k, 0, true);
                    ph.tasks.push(TaskPlan::Session {
                        client: c,
                        ops: vec![OpPlan::Call(cp)],
                    });
                }
            }
            self.plan.phases.push(ph);
        }
        let silent = self.r.chance(12);
        let mut ph = phase("faults", false);
        for c in 0..nc {
            for _ in 0..self.r.range(1, 3) {
                let mut ops = vec![];
                for _ in 0..self.r.range(1, 5) {
                    let i = self.r.idx(ns);
                    let k = match self.r.below(10) {
                        0 | 1 => Kind::Big,
                        2 => Kind::Partial,
                        3..=5 => *self.r.pick(SIMPLE),
                        _ => *self.r.pick(CALLABLE),
                    };
                    let pooled = self.r.chance(85);
                    let mut cp = self.call(srv_addr(i), k, level, pooled);
                    self.delay(&mut cp, 30, 20_000);
                    self.cancel(&mut cp, 15);
                    if silent {
                        cp.cancel_polls = None;
                        cp.cancel_us = Some(self.r.range(100, 400_000));
                    }
                    ops.push(OpPlan::Call(cp));
                    self.gap(&mut ops, 30, 20_000);
                }
                ph.tasks.push(TaskPlan::Session { client: c, ops });
            }
        }
        let kinds = self.r.range(1, 3);
        for _ in 0..kinds {
            match self.r.below(if silent { 1 } else { 9 }) {
                0 if silent => {
                    let s = self.r.idx(ns);
                    let at = self.r.below(15_000);
                    let down = self.r.range(1000, 300_000);
                    ph.faults.push(FaultPlan { at_us: at, f: Fault::KillServer { server: s, silent: true } });
                    ph.faults.push(FaultPlan { at_us: at + down, f: Fault::StartServer { server: s } });
                }
                0 | 1 => {
                    let s = self.r.idx(ns);
                    let at = self.r.below(15_000);
                    let down = self.r.range(100, 300_000);
                    ph.faults.push(FaultPlan { at_us: at, f: Fault::KillServer { server: s, silent: false } });
                    ph.faults.push(FaultPlan { at_us: at + down, f: Fault::StartServer { server: s } });
                }
                2 => {
                    let s = self.r.idx(ns);
                    let c = self.r.idx(nc);
                    let (a, b) = (client_ip(c), srv_addr(s).ip());
                    let at = self.r.below(15_000);
                    let len = self.r.range(1000, 2_000_000);
                    ph.faults.push(FaultPlan { at_us: at, f: Fault::Partition { a, b, on: true } });
                    ph.faults.push(FaultPlan { at_us: at + len, f: Fault::Partition { a, b, on: false } });
                }
                3 => {
                    for _ in 0..self.r.range(1, 4) {
                        let at_us = self.r.below(30_000);
                        let conn = self.r.idx(8);
                        ph.faults.push(FaultPlan { at_us, f: Fault::Rst { conn } });
                    }
                }
                4 => {
                    let at_us = self.r.below(15_000);
                    let cl = self.r.chance(50);
                    let idx = if cl { self.r.idx(nc) } else { self.r.idx(ns) };
                    let us = self.r.range(1000, 500_000);
                    ph.faults.push(FaultPlan { at_us, f: Fault::Pause { client: cl, idx, us } });
                }
                _ => {
                    for _ in 0..self.r.range(1, 5) {
                        let c = CutPlan {
                            conn: self.r.idx(8),
                            dir: self.r.idx(2),
                            off: self.offset(),
                            mode: *self.r.pick(&[0u8, 1, 1, 2]),
                            us: self.r.range(100, 500_000),
                        };
                        self.plan.cuts.push(c);
                    }
                }
            }
        }
        self.plan.phases.push(ph);
        let rest = (suspend + timeout + 100) * 1000;
        for (name, rec) in [("recover", true), ("healthy", false)] {
            let mut ph = phase(name, !rec);
            ph.recover = rec;
            for c in 0..nc {
                for s in 0..ns {
                    let mut ops = vec![];
                    if rec {
                        ops.push(OpPlan::Sleep { us: rest });
                    }
                    // enough to use up whatever is stale
                    let n = if rec { 8 + self.r.below(8) } else { self.r.range(1, 3) };
                    for _ in 0..n {
                        let k = *self.r.pick(SIMPLE);
                        let cp = self.call(srv_addr(s), k, 0, true);
                        ops.push(OpPlan::Call(cp));
                    }
                    ph.tasks.push(TaskPlan::Session { client: c, ops });
                }
            }
            self.plan.phases.push(ph);
        }
    }

    // ------------------------------------------------------------ hostile

    fn hostile(&mut self) {
        self.server(srv_addr(0), false);
        let to = srv_addr(0);
        let nc = self.r.range(1, 2) as usize;
        for _ in 0..nc {
            let p = if self.r.chance(70) {
                let s = *self.r.pick(&[0usize, 1, 4]);
                Some(self.pool_plan(Some(s)))
            } else {
                None
            };
            self.client(p);
        }
        for n in 0..2 {
            let mut ph = phase(if n == 0 { "hostile" } else { "after" }, true);
            if n == 0 {
                for _ in 0..self.r.range(1, 6) {
                    let ops = self.bad_client(to);
                    ph.tasks.push(TaskPlan::Raw { good: false, ops });
                }
            }
            let crowd = n == 0 && self.r.below(1000) < 12;
            if crowd {
                // many clients that stay connected and do next to nothing
                let s = self.good_raw_text();
                let k = *self.r.pick(&[0usize, 0, 1, 10, s.len() - 1]);
                for _ in 0..self.log_range(20, 700) {
                    let mut ops = vec![RawOp::Sleep { us: self.r.below(20_000) }, RawOp::Connect { to }];
                    if k > 0 {
                        ops.push(RawOp::Send { bytes: Blob(s.as_bytes()[..k].to_vec()), chunk: 0, gap_us: 0 });
                    }
                    ops.push(RawOp::Sleep { us: self.r.range(2_000_000, 3_000_000) });
                    ops.push(RawOp::Close);
                    ph.tasks.push(TaskPlan::Raw { good: false, ops });
                }
            }
            for _ in 0..self.r.range(0, 2) {
                let ops = self.good_raw(to);
                ph.tasks.push(TaskPlan::Raw { good: true, ops });
            }
            for c in 0..nc {
                let mut ops = vec![];
                if self.r.chance(50) {
                    ops.push(OpPlan::Sleep { us: self.r.below(30_000) });
                }
                if crowd {
                    ops.push(OpPlan::Sleep { us: self.r.range(100_000, 500_000) });
                }
                for _ in 0..self.r.range(1, 4) {
                    let k = *self.r.pick(CALLABLE);
                    let pooled = self.r.chance(70);
                    let mut cp = self.call(to, k, 1, pooled);
                    self.delay(&mut cp, 20, 1_500_000);
                    ops.push(OpPlan::Call(cp));
                    self.gap(&mut ops, 20, 20_000);
                }
                ph.tasks.push(TaskPlan::Session { client: c, ops });
            }
            if n == 0 && self.r.chance(35) {
                for _ in 0..self.r.range(1, 3) {
                    let nth = self.r.below(6);
                    let errno = *self.r.pick(&[103, 103, 71, 113, 23, 24, 105, 12, 4, 11]);
                    self.plan.accept_errs.push(AcceptErr { addr: to, nth, errno });
                }
            }
            if n == 0 && self.r.chance(5) {
                // one after the other
                let (m, top) = (self.log_range(5, 60), self.log_range(5, 100));
                for _ in 0..m {
                    let nth = self.r.below(top);
                    let errno = *self.r.pick(&[103, 24, 24, 23, 105, 71]);
                    self.plan.accept_errs.push(AcceptErr { addr: to, nth, errno });
                }
            }
            if n == 0 && self.r.chance(20) {
                let at_us = self.r.below(3000);
                let us = if self.r.chance(20) { self.log_range(20_000, 4_000_000) } else { self.r.range(100, 20_000) };
                ph.faults.push(FaultPlan { at_us, f: Fault::AcceptEmfile { addr: to, us } });
            }
            self.plan.phases.push(ph);
        }
    }
    fn tok(&mut self) -> String {
        // far from the other ids: what these clients send may have bytes changed
        // (and no digit changed makes one the other)
        let k = (self.next_raw() - 500_000) % 5000;
        wire::token(950_000 + k * 10 + (k / 1000 + k / 100 % 10 + k / 10 % 10 + k % 10) % 10)
    }
    fn good_raw_text(&mut self) -> String {
        let t = self.tok();
        match self.r.below(4) {
            0 => format!("GET /?id={} HTTP/1.1\r\n\r\n", t),
            1 => format!("DELETE /p/{}/v HTTP/1.1\r\nHost: x\r\n\r\n", t),
            2 => format!("PUT /b HTTP/1.1\r\nContent-Length: 14\r\n\r\n{}abcd", t),
            _ => format!("GET /status/{} HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n", t),
        }
    }
    fn bad_client(&mut self, to: SocketAddr) -> Vec<RawOp> {
        let mut ops = vec![];
        if self.r.chance(50) {
            ops.push(RawOp::Sleep { us: self.r.below(10_000) });
        }
        ops.push(RawOp::Connect { to });
        if self.r.chance(15) {
            // well-behaved at first
            let s = self.good_raw_text();
            ops.push(RawOp::Send { bytes: Blob(s.into_bytes()), chunk: 0, gap_us: 0 });
            ops.push(RawOp::Await { head: false, max_us: 2_000_000, expect: None });
        }
        let t = self.tok();
        let mut bytes: Vec<u8> = match self.r.below(26) {
            0 | 1 => vec![],
            2 => {
                let n = self.r.range(1, 200) as usize;
                self.r.bytes(n)
            }
            3 => {
                let s = self.good_raw_text();
                let n = self.r.below(s.len() as u64) as usize;
                s.as_bytes()[..n].to_vec()
            }
            4 => format!("GET /?id={} HTTP/1.1\r\nX-Long: {}\r\n\r\n", t, "y".repeat(self.r.range(8000, 30_000) as usize)).into_bytes(),
            5 => format!("GET /{}?id={} HTTP/1.1\r\n\r\n", "z".repeat(self.r.range(8000, 30_000) as usize), t).into_bytes(),
            6 => {
                let n = self.r.range(20, 200);
                let mut s = format!("GET /?id={} HTTP/1.1\r\n", t);
                for i in 0..n {
                    s.push_str(&format!("X-H{}: {}\r\n", i, i));
                }
                s.push_str("\r\n");
                s.into_bytes()
            }
            7 => format!("POST /big HTTP/1.1\r\nX-Call-Id: {}\r\nContent-Length: {}\r\n\r\nabc", t,
                self.r.pick(&["4", "100000", "18446744073709551615", "9223372036854775808", "4294967296"])).into_bytes(),
            8 => format!("POST /big HTTP/1.1\r\nX-Call-Id: {}\r\nContent-Length: {}\r\n\r\nabc", t,
                self.r.pick(&["", "-1", "abc", "3, 3", "0x3", "18446744073709551616", "3\r\nContent-Length: 2", " 3 "])).into_bytes(),
            9 => format!("POST /big HTTP/1.1\r\nX-Call-Id: {}\r\nTransfer-Encoding: chunked\r\n\r\n{}", t,
                self.r.pick(&["5\r\nhello\r\n0\r\n\r\n", "zz\r\n", "ffffffffffffffff\r\nabc", "5\r\nhel"])).into_bytes(),
            10 => {
                let u = *self.r.pick(&[
                    "mailto:x", "data:,x", "//x/y", "*", "host:80", "http://h/?id=1", "http://h:99999/", "http://[::1", "///",
                    "/%", "/%zz", "/\\", "/a/../../b", "/?a=%FF", "/?%", "?x", "#f", "/#f", "javascript:1", "", "/p/%FF/x",
                    "http:", "file:///etc/passwd", "/q?id=1&b=ture", "/:80", "/p/a/b/c/d/e/f/g", "about:blank", "x",
                ]);
                let m = *self.r.pick(&["GET", "POST", "OPTIONS", "CONNECT", "HEAD", "PUT", "DELETE", "TRACE", "PATCH", "PROPFIND", "get", ""]);
                format!("{} {} HTTP/1.1\r\nX-T: {}\r\n\r\n", m, u, t).into_bytes()
            }
            11 => b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03".to_vec(),
            12 => b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec(),
            13 => format!("GET /?id={} HTTP/{}\r\n\r\n", t, self.r.pick(&["1.0", "0.9", "2.0", "1.2", "11", "x"])).into_bytes(),
            14 => format!("GET /?id={}\r\n\r\n", t).into_bytes(),
            15 => {
                let mut v = format!("GET /h/all HTTP/1.1\r\nX-Call-ID: {}\r\nX-S: ", t).into_bytes();
                v.extend_from_slice(self.r.pick(&[&b"\xff\xfe"[..], b"\xc3\x28", b"\x00", b"a\x01b", b"\x7f"]));
                v.extend_from_slice(b"\r\n\r\n");
                v
            }
            16 => format!("GET /?id={} HTTP/1.1\r\n{}\r\n\r\n", t,
                self.r.pick(&["no colon here", ": empty", "a b: c", " folded", "x\0y: 1", "Content-Length", "Host : x"])).into_bytes(),
            17 => {
                let mut v = b"GET /".to_vec();
                v.extend_from_slice(self.r.pick(&[&b"\xff\xfe"[..], "日本".as_bytes(), b"\x00", b"\t", b"a b"]));
                v.extend_from_slice(format!(" HTTP/1.1\r\nX-T: {}\r\n\r\n", t).as_bytes());
                v
            }
            21 => {
                // long targets, header names and values with characters of several bytes anywhere
                let mut u = String::new();
                for _ in 0..self.r.range(1, 6) {
                    let c = *self.r.pick(&["a", "é", "日", "𝄞", "%C3%A9", "/", "%", "?", "&", "="]);
                    u.push_str(&c.repeat(self.r.below(90) as usize));
                }
                match self.r.below(3) {
                    0 => format!("GET /{} HTTP/1.1\r\nX-T: {}\r\n\r\n", u, t).into_bytes(),
                    1 => format!("GET /?id={}&x={} HTTP/1.1\r\n\r\n", t, u).into_bytes(),
                    _ => format!("GET /h/all HTTP/1.1\r\nX-Call-ID: {}\r\nX-S: {}\r\nX-B: {}\r\n\r\n", t, u, u).into_bytes(),
                }
            }
            18 => b"\r\n\r\n\r\n\r\n".to_vec(),
            19 => vec![b'A'; self.r.range(1000, 60_000) as usize],
            20 => {
                // many requests without reading any response
                let mut s = String::new();
                for _ in 0..self.r.range(2, 30) {
                    s.push_str(&self.good_raw_text());
                }
                s.into_bytes()
            }
            _ => self.good_raw_text().into_bytes(),
        };
        if self.r.chance(10) {
            // damage one byte
            if !bytes.is_empty() {
                let i = self.r.idx(bytes.len());
                bytes[i] = self.r.below(256) as u8;
            }
        }
        if self.r.chance(10) && bytes.len() > 1 {
            let n = self.r.idx(bytes.len());
            bytes.truncate(n);
        }
        let (chunk, gap) = match self.r.below(3) {
            0 => (0usize, 0u64),
            1 => (1 + self.r.idx(40), self.r.below(3000)),
            _ => (1, self.r.range(1, 20_000)),
        };
        let chunk = if bytes.len() > 3000 && chunk > 0 { chunk.max(500) } else { chunk };
        if !bytes.is_empty() {
            ops.push(RawOp::Send { bytes: Blob(bytes), chunk, gap_us: gap });
        }
        if self.r.chance(25) {
            ops.push(RawOp::Await { head: false, max_us: self.r.range(1, 300_000), expect: None });
        }
        if self.r.chance(60) {
            ops.push(RawOp::Sleep { us: self.r.range(1, 3_000_000) });
        }
        match self.r.below(4) {
            0 => ops.push(RawOp::Reset),
            1 => {
                ops.push(RawOp::ShutdownWrite);
                ops.push(RawOp::Sleep { us: self.r.range(1, 500_000) });
            }
            _ => ops.push(RawOp::Close),
        }
        ops
    }
    /// Sequential well-formed requests written by hand, with what has to come of them.
    fn good_raw(&mut self, to: SocketAddr) -> Vec<RawOp> {
        let mut ops = vec![];
        if self.r.chance(50) {
            ops.push(RawOp::Sleep { us: self.r.below(10_000) });
        }
        ops.push(RawOp::Connect { to });
        let n = if self.r.below(1000) == 0 { self.log_range(20, 600) } else { self.r.range(1, 6) };
        for _ in 0..n {
            self.good_request(&mut ops);
        }
        if self.r.chance(20) {
            // a last request of which only a part is sent
            let id = self.next_raw();
            let mut s = format!("PUT /b HTTP/1.1\r\nContent-Length: 60\r\n\r\n{}", wire::token(id)).into_bytes();
            if self.r.chance(40) {
                let b = self.body_text(id, 10);
                s = format!("PUT /b HTTP/1.1\r\nContent-Length: {}\r\n\r\n", b.len()).into_bytes();
                s.extend_from_slice(&b);
                s = self.in_chunks(s);
                // (all but the last byte at most)
                s.pop();
            }
            let n = s.len() - if self.r.chance(50) { 0 } else { self.r.idx(s.len()) };
            ops.push(RawOp::Send { bytes: Blob(s[..n].to_vec()), chunk: 0, gap_us: 0 });
            if self.r.chance(50) {
                ops.push(RawOp::Sleep { us: self.r.range(1, 5000) });
            }
            ops.push(match self.r.below(3) {
                0 => RawOp::Reset,
                1 => RawOp::ShutdownWrite,
                _ => RawOp::Close,
            });
        }
        ops
    }
    fn send_expect(&mut self, ops: &mut Vec<RawOp>, text: Vec<u8>, e: AwaitExpect) {
        let head = text.starts_with(b"HEAD ");
        let mut text = text;
        while let Some(i) = text.windows(7).position(|w| w == b"@LATIN@") {
            text.splice(i..i + 7, b"caf\xe9 \xff".iter().cloned());
        }
        if !head && self.r.chance(12) {
            text = self.in_chunks(text);
        }
        let (chunk, gap_us) = match self.r.below(4) {
            0 => (1 + self.r.idx(60), self.r.below(2000)),
            _ => (0, 0),
        };
        ops.push(RawOp::Send { bytes: Blob(text), chunk, gap_us });
        ops.push(RawOp::Await { head, max_us: 30_000_000, expect: Some(e) });
    }
    /// The body in chunks.
    fn chunked(&mut self, body: &[u8]) -> Vec<u8> {
        let mut v = vec![];
        let mut at = 0;
        let most = *self.r.pick(&[3u64, 30, 1000, 20_000]);
        while at < body.len() {
            // (the first one holds the token)
            let least = if at == 0 { 10 } else { 1 };
            let n = (self.r.range(1, most) as usize).max(least).min(body.len() - at);
            let size = match self.r.below(4) {
                0 => format!("{:X}", n),
                1 => format!("{:04x}", n),
                _ => format!("{:x}", n),
            };
            let ext = *self.r.pick(&["", "", "", "", ";x", ";name=value", ";q=\"a b\""]);
            v.extend_from_slice(format!("{}{}\r\n", size, ext).as_bytes());
            v.extend_from_slice(&body[at..at + n]);
            v.extend_from_slice(b"\r\n");
            at += n;
        }
        v.extend_from_slice(self.r.pick(&[&b"0\r\n"[..], b"0\r\n", b"00\r\n", b"0;last\r\n"]));
        v.extend_from_slice(self.r.pick(&[&b""[..], b"", b"", b"X-Trailer: 1\r\n", b"X-A: b\r\nX-C:\r\n"]));
        v.extend_from_slice(b"\r\n");
        v
    }
    /// The same request with its body in chunks.
    fn in_chunks(&mut self, text: Vec<u8>) -> Vec<u8> {
        let head = match text.windows(4).position(|w| w == b"\r\n\r\n") {
            Some(i) => i + 2,
            None => return text,
        };
        let name = b"content-length:";
        let mut v = vec![];
        let mut at = 0;
        while at < head {
            let end = at + text[at..].windows(2).position(|w| w == b"\r\n").unwrap() + 2;
            let l = &text[at..end];
            if l.len() < name.len() || !l[..name.len()].eq_ignore_ascii_case(name) {
                v.extend_from_slice(l);
            }
            at = end;
        }
        v.extend_from_slice(self.r.pick(&["Transfer-Encoding: chunked", "transfer-encoding:chunked", "Transfer-Encoding: Chunked"]).as_bytes());
        v.extend_from_slice(b"\r\n\r\n");
        let body = self.chunked(&text[head + 2..]);
        v.extend_from_slice(&body);
        v
    }
    /// extra header lines that change nothing
    fn extra_headers(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.below(4) {
            s.push_str(*self.r.pick(&[
                "Host: example.com\r\n",
                "User-Agent: curl/8.0\r\n",
                "Accept: */*\r\n",
                "X-Unknown: \r\n",
                "x-zz: a, b; c=\"d\"\r\n",
                "Accept-Language: de, en;q=0.5\r\n",
                "Cookie: a=b\r\n",
                // (bytes beyond ASCII, see `send_expect`)
                "X-Latin: @LATIN@\r\n",
                "X-Name: x-call-id\r\n",
                "X-Other: content-type\r\n",
                "X-Another: x-s\r\n",
            ]));
        }
        if self.r.chance(3) {
            // many of them (see §3 of DESIGN.md for how many a server has to take)
            for i in 0..self.r.range(1, 8) {
                s.push_str(&format!("X-P{}: {}\r\n", i, i));
            }
        }
        if self.r.chance(2) {
            s.push_str(&format!("X-Long: {}\r\n", "v".repeat(self.r.range(500, 5000) as usize)));
        }
        s
    }
    fn extra_query(&mut self) -> String {
        self.r
            .pick(&["", "", "", "&zz=1", "&yy=", "&flag", "&a=b&c=d", "&%C3%A9=%20", "&zz=1&zz=2", "&zz=id", "&zz=x&yy=read", "&zz=%FF"])
            .to_string()
    }
    fn body_text(&mut self, id: u64, min: usize) -> Vec<u8> {
        let n = *self.r.pick(&[0usize, 1, 20, 300, 5000, 9000]);
        let n = n.max(min);
        let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let t = wire::token(id);
        if v.len() >= t.len() {
            v[..t.len()].copy_from_slice(t.as_bytes());
        }
        v
    }
    fn good_request(&mut self, ops: &mut Vec<RawOp>) {
        let id = self.next_raw();
        let t = wire::token(id);
        let xh = self.extra_headers();
        let xq = self.extra_query();
        let lead = if self.r.chance(25) { *self.r.pick(&["zz=9&", "zz=id&", "zz=x&", "&", "zz&"]) } else { "" };
        let mk = |line: String, hdr: String, body: &[u8]| -> Vec<u8> {
            let mut v = format!("{} HTTP/1.1\r\n{}", line, hdr).into_bytes();
            if !body.is_empty() {
                v.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes());
            }
            v.extend_from_slice(b"\r\n");
            v.extend_from_slice(body);
            v
        };
        let ok = |what: &str, seen: String| AwaitExpect { id, problem: None, what: what.into(), seen: Some(seen) };
        let bad = |n: u16| AwaitExpect { id, problem: Some(n), what: String::new(), seen: None };
        let body0: Vec<u8> = vec![];
        if self.r.chance(20) {
            return self.typed_request(ops);
        }
        match self.r.below(16) {
            0 => {
                let b = self.body_text(id, 0);
                let b = if self.r.chance(50) { body0 } else { b };
                let q = procs::RootReq { query: procs::HeadQuery { id: t.clone(), x: None }, body: Body(b.clone()) };
                let s = mk(format!("GET /?{}id={}{}", lead, t, xq), xh, &b);
                self.send_expect(ops, s, ok("Root", format!("{:?}", q)));
            }
            1 => {
                // no header at all
                let q = procs::RootReq { query: procs::HeadQuery { id: t.clone(), x: Some("é &".into()) }, body: Body(vec![]) };
                let s = mk(format!("GET /?x=%C3%A9+%26&{}id={}", lead, t), String::new(), &[]);
                self.send_expect(ops, s, ok("Root", format!("{:?}", q)));
            }
            2 => {
                let q = procs::PathOnlyReq { path: (t.clone(), "a/b é".into()), body: Body(vec![]) };
                let s = mk(format!("DELETE /p/{}/a%2fb%20%C3%A9", t), xh, &[]);
                self.send_expect(ops, s, ok("PathOnly", format!("{:?}", q)));
            }
            3 => {
                let b = self.body_text(id, 10);
                let q = procs::BodyOnlyReq { body: Body(b.clone()) };
                let s = mk("PUT /b".into(), xh, &b);
                self.send_expect(ops, s, ok("BodyOnly", format!("{:?}", q)));
            }
            4 => {
                let q = procs::HeadReq { path: ("".into(),), query: procs::HeadQuery { id: t.clone(), x: None }, body: Body(vec![]) };
                let s = mk(format!("HEAD /head/?id={}{}", t, xq), xh, &[]);
                self.send_expect(ops, s, ok("HeadM", format!("{:?}", q)));
            }
            5 => {
                let b = self.body_text(id, 0);
                let q = procs::StatusReq { path: (t.clone(),), body: Body(b.clone()) };
                let s = mk(format!("GET /status/{}", t), xh, &b);
                self.send_expect(ops, s, ok("StatusP", format!("{:?}", q)));
            }
            6 => {
                let mut m = std::collections::BTreeMap::new();
                m.insert("a".to_string(), "1 2".to_string());
                m.insert("b=".to_string(), "".to_string());
                let q = procs::QMapReq { query: m, header: procs::IdHead { id: t.clone() }, body: Body(vec![]) };
                let n = *self.r.pick(&["X-Call-Id", "x-call-id", "X-CALL-ID"]);
                let s = mk("GET /q/map?a=1+2&b%3D".into(), format!("{}{}: {}\r\n", xh, n, t), &[]);
                self.send_expect(ops, s, ok("QMap", format!("{:?}", q)));
            }
            7 => {
                // the handler leaves (part of) the body unread
                let b = self.body_text(id, 10);
                let read = *self.r.pick(&[0u32, 1, 100_000]);
                let q = procs::PartialQuery { id: t.clone(), read };
                let s = mk(format!("POST /partial/?read={}&id={}{}", read, t, xq), xh, &b);
                self.send_expect(ops, s, ok("Partial", format!("{:?}", q)));
            }
            8 => {
                let b = self.body_text(id, 0);
                let p = *self.r.pick(&["/nope", "/p", "/p/x", "/p/x/y/z", "/q/", "/q/map/x", "/head", "/b/", "/Q", "/partial", "/x/"]);
                let m = *self.r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"]);
                let s = mk(format!("{} {}?id={}{}", m, p, t, xq), xh, &b);
                self.send_expect(ops, s, bad(404));
            }
            9 => {
                let b = self.body_text(id, 0);
                let (m, p) = *self.r.pick(&[
                    ("POST", "/"),
                    ("GET", "/b"),
                    ("DELETE", "/q"),
                    ("POST", "/q/map"),
                    ("PUT", "/p/a/b"),
                    ("GET", "/partial/"),
                    ("PATCH", "/status/x"),
                    ("GET", "/prob/x"),
                    ("OPTIONS", "/b"),
                    ("GET", "/head/x"),
                ]);
                let s = mk(format!("{} {}?id={}{}", m, p, t, xq), xh, &b);
                self.send_expect(ops, s, bad(405));
            }
            10 => {
                let s = mk(format!("HEAD /nope/{}", t), xh, &[]);
                self.send_expect(ops, s, bad(404));
            }
            11 => {
                // query parameters missing or of the wrong type
                let b = self.body_text(id, 0);
                let (m, p) = match self.r.below(5) {
                    0 => ("GET", format!("/?ix={}", t)),
                    1 => ("GET", format!("/q?id={}&b=maybe", t)),
                    2 => ("POST", format!("/partial/?id={}&read=-1", t)),
                    3 => ("POST", format!("/partial/?id={}&read=4294967296", t)),
                    _ => ("GET", format!("/q?id={}&b=true&f=x", t)),
                };
                let s = mk(format!("{} {}{}", m, p, xq), xh, &b);
                self.send_expect(ops, s, bad(400));
            }
            12 => {
                // header fields missing or of the wrong type
                let b = self.body_text(id, 0);
                let (m, p, h) = match self.r.below(4) {
                    0 => ("GET", "/h/all".to_string(), format!("X-Call-ID: {}\r\n", t)),
                    1 => ("GET", "/p/unit".to_string(), format!("X-Other: {}\r\n", t)),
                    2 => ("POST", "/big".to_string(), format!("X-T: {}\r\n", t)),
                    _ => (
                        "GET",
                        "/h/all".to_string(),
                        format!("Content-Type: text/plain; charset=utf-8\r\nX-Call-ID: {}\r\nX-B: yes\r\nX-S: s\r\nX-W: w\r\nX-Bin: b\r\n", t),
                    ),
                };
                let s = mk(format!("{} {}", m, p), format!("{}{}", xh, h), &b);
                self.send_expect(ops, s, bad(400));
            }
            13 => {
                // path variables that cannot be converted
                let b = self.body_text(id, 0);
                let (m, p) = match self.r.below(4) {
                    0 => ("PUT", "/ints/1/2/3/4/5/x".to_string()),
                    1 => ("PUT", "/ints/128/2/3/4/5/6".to_string()),
                    2 => ("DELETE", "/p/%FF/x".to_string()),
                    _ => ("GET", "/v/maybe/1/1.5/mid/s/1/1/w".to_string()),
                };
                let s = mk(format!("{} {}", m, p), format!("{}X-Call-Id: {}\r\n", xh, t), &b);
                self.send_expect(ops, s, bad(400));
            }
            14 => {
                let q = procs::HeaderReq {
                    header: procs::AllHead {
                        ct: procs::TextPlain,
                        id: t.clone(),
                        b: true,
                        ob: None,
                        s: "a  b".into(),
                        os: Some("".into()),
                        w: procs::Wrap("é".into()),
                        bin: procs::Bin("ÿ".into()),
                        obin: None,
                    },
                    body: Body(vec![]),
                };
                let h = format!(
                    "{}content-TYPE:text/plain; charset=utf-8\r\nx-call-id:\t{} \r\nX-B:true\r\nX-S:   a  b  \r\nX-Os:\r\nX-Bin:ÿ\r\nX-W: é\r\n",
                    xh, t
                );
                let s = mk("GET /h/all".into(), h, &[]);
                self.send_expect(ops, s, ok("HeaderP", format!("{:?}", q)));
            }
            _ => {
                let q = procs::EncReq { path: ("v w".into(),), header: procs::IdHead { id: t.clone() }, body: Body(vec![]) };
                let s = mk("POST /a%20b/%c3%a9%25/v%20w/x%2By%26z%3D%3f".into(), format!("{}X-Call-Id: {}\r\n", xh, t), &[]);
                self.send_expect(ops, s, ok("Enc", format!("{:?}", q)));
            }
        }
    }

    // ------------------------------------------------------------ typed fields

    /// A text that is no value of the type.
    fn bad_value(&mut self, ty: &Ty, header: bool) -> Option<Vec<u8>> {
        if let (&Ty::Int(signed, bits), true) = (ty, self.r.chance(30)) {
            // out of range, by little or by much
            let max = if signed { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
            let min = if signed { -(1i128 << (bits - 1)) } else { 0 };
            let by = 1 + (self.r.u64() >> self.r.below(64)) as i128;
            let v = if self.r.chance(60) { max + by } else { min - by };
            return Some(v.to_string().into_bytes());
        }
        let v: &[&[u8]] = match *ty {
            Ty::Str if header => &[b"\xff\xfe", b"a\xc3", b"\x80", b"ok\xe2\x82"],
            Ty::Str | Ty::Bytes => &[],
            Ty::Bool => &[b"yes", b"1", b"TRUE", b"t", b"truefalse", b"", b"0", b"True", b"on", b"null"],
            Ty::Int(true, 8) => &[b"x", b"128", b"-129", b"1.0", b"0x1", b"1 2", b"", b"-"],
            Ty::Int(true, 16) => &[b"x", b"32768", b"-32769", b"1e3", b"--1", b"", b"null"],
            Ty::Int(true, 32) => &[b"x", b"2147483648", b"-2147483649", b"1_0", b"", b"0b1"],
            Ty::Int(true, _) => &[b"x", b"9223372036854775808", b"-9223372036854775809", b"1,0", b"", b"5."],
            Ty::Int(false, 8) => &[b"x", b"256", b"-1", b"1.0", b"", b"true"],
            Ty::Int(false, 16) => &[b"x", b"65536", b"-1", b"0x1", b"", b"1k"],
            Ty::Int(false, 32) => &[b"x", b"4294967296", b"-1", b"ff", b"", b"None"],
            Ty::Int(false, _) => &[b"x", b"18446744073709551616", b"-1", b"1e1", b"", b"1;2"],
            Ty::Float => &[b"x", b"1.2.3", b"--1", b"0x1", b"1,5", b"", b"1f", b"null"],
            Ty::Const => &[b"text/html", b"text/plain", b"text/plain; charset=utf-8; x=y", b"x", b""],
            Ty::Json => &[b"{", b"[1]", b"x", b"{\"a\":\"x\",\"b\":[],\"c\":null}", b"null", b"{}", b""],
        };
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(v).to_vec())
        }
    }
    /// Path segments of the values, each as it is or escaped here and there.
    fn path_text(&mut self, fs: &[Field]) -> String {
        let mut segs = vec![];
        for f in fs {
            let mut s = String::new();
            for &b in &f.text {
                if (b.is_ascii_alphanumeric() || b"-_".contains(&b)) && !self.r.chance(7) {
                    s.push(b as char);
                } else if b == b'.' && f.text.len() > 2 {
                    s.push('.');
                } else {
                    s.push_str(&format!("%{:02X}", b));
                }
            }
            segs.push(s);
        }
        segs.join("/")
    }
    /// Breaks, drops or reorders fields; returns whether they can still be converted, and the
    /// names of those dropped.
    fn perturb(&mut self, fs: &mut Vec<Field>, header: bool) -> (bool, Vec<&'static str>) {
        let mut ok = true;
        let mut gone = vec![];
        for i in (0..fs.len()).rev() {
            if fs[i].opt && self.r.chance(30) {
                gone.push(fs.remove(i).name);
            }
        }
        if self.r.chance(50) && !fs.is_empty() {
            ok = false;
            let i = self.r.idx(fs.len());
            if !fs[i].opt && self.r.chance(30) {
                fs.remove(i);
            } else {
                match self.bad_value(&fs[i].ty, header) {
                    None => ok = true,
                    Some(v) => fs[i].text = v,
                }
            }
        }
        // any order
        for i in (1..fs.len()).rev() {
            let j = self.r.idx(i + 1);
            fs.swap(i, j);
        }
        (ok, gone)
    }
    fn header_lines(&mut self, fs: &[Field]) -> Vec<u8> {
        let mut v = vec![];
        for f in fs {
            let name = match self.r.below(4) {
                0 => f.name.to_ascii_uppercase(),
                1 => f.name.split('-').map(|p| p[..1].to_ascii_uppercase() + &p[1..]).collect::<Vec<_>>().join("-"),
                _ => f.name.to_string(),
            };
            v.extend_from_slice(name.as_bytes());
            v.extend_from_slice(self.r.pick(&[":", ": ", ":  ", ":\t"]).as_bytes());
            v.extend_from_slice(&f.text);
            v.extend_from_slice(self.r.pick(&["", "", " ", "\t "]).as_bytes());
            v.extend_from_slice(b"\r\n");
        }
        v
    }
    fn query_text(&mut self, fs: &[Field]) -> String {
        let mut parts = vec![];
        for f in fs {
            let mut s = format!("{}=", f.name);
            for &b in &f.text {
                if b.is_ascii_alphanumeric() && !self.r.chance(10) {
                    s.push(b as char);
                } else if b == b' ' && self.r.chance(50) {
                    s.push('+');
                } else if b"-._".contains(&b) && self.r.chance(60) {
                    s.push(b as char);
                } else {
                    s.push_str(&format!("%{:02X}", b));
                }
            }
            parts.push(s);
        }
        parts.join("&")
    }
    fn word(&mut self) -> String {
        self.r.pick(&["", "a", "a b", "é", "日本", "x=y&z", "100%", "\"q\"", "a,b;c", "true", "-1", "null", "None", "x-s", "id"]).to_string()
    }
    fn bin(&mut self) -> procs::Bin {
        let n = self.r.below(8);
        procs::Bin((0..n).map(|_| if self.r.chance(50) { self.r.range(0x21, 0x7e) } else { self.r.range(0x80, 0xff) } as u8).collect())
    }
    /// A request whose fields are all told by type, some of them unacceptable.
    fn typed_request(&mut self, ops: &mut Vec<RawOp>) {
        let id = self.next_raw();
        let t = wire::token(id);
        let b = self.body_text(id, 0);
        let int = |r: &mut Rng| r.u64() >> r.below(64);
        let mut ok = true;
        let (line, head, what, seen): (String, Vec<u8>, &str, String) = match self.r.below(4) {
            0 => {
                let mut h = procs::AllHead {
                    ct: procs::TextPlain,
                    id: t.clone(),
                    b: self.r.chance(50),
                    ob: Some(self.r.chance(50)),
                    s: self.word(),
                    os: Some(self.word()),
                    w: procs::Wrap(self.word()),
                    bin: self.bin(),
                    obin: Some(self.bin()),
                };
                let mut fs = vec![
                    Field::new("content-type", "text/plain; charset=utf-8", Ty::Const, false),
                    Field::new("x-b", h.b, Ty::Bool, false),
                    Field::new("x-ob", h.ob.unwrap(), Ty::Bool, true),
                    Field::new("x-s", &h.s, Ty::Str, false),
                    Field::new("x-os", h.os.as_ref().unwrap(), Ty::Str, true),
                    Field::new("x-w", &h.w.0, Ty::Str, false),
                    Field::bytes("x-bin", &h.bin, false),
                    Field::bytes("x-obin", h.obin.as_ref().unwrap(), true),
                ];
                let (o, gone) = self.perturb(&mut fs, true);
                ok &= o;
                fs.push(Field::new("x-call-id", &t, Ty::Str, false));
                if gone.contains(&"x-ob") {
                    h.ob = None;
                }
                if gone.contains(&"x-os") {
                    h.os = None;
                }
                if gone.contains(&"x-obin") {
                    h.obin = None;
                }
                let q = procs::HeaderReq { header: h, body: Body(b.clone()) };
                ("GET /h/all".into(), self.header_lines(&fs), "HeaderP", format!("{:?}", q))
            }
            1 => {
                let r = &mut self.r;
                let path = procs::IntsPath(int(r) as i8, int(r) as i16, int(r) as i32, int(r) as u16, int(r) as u32, int(r));
                let query = procs::IntsQuery {
                    i1: int(r) as i8,
                    i2: int(r) as i16,
                    i4: int(r) as i32,
                    i8_: int(r) as i64,
                    u1: int(r) as u8,
                    u2: int(r) as u16,
                    u4: int(r) as u32,
                    u8_: int(r),
                    z: int(r) as usize,
                };
                let mut header = procs::IntsHead {
                    id: t.clone(),
                    i1: int(r) as i8,
                    i2: int(r) as i16,
                    i4: int(r) as i32,
                    i8_: int(r) as i64,
                    u1: int(r) as u8,
                    u2: int(r) as u16,
                    u4: Some(int(r) as u32),
                    u8_: int(r),
                    f4: (int(r) as i16) as f32 / 4.0,
                    f8: (int(r) as i32) as f64 / 8.0,
                };
                let mut ps = vec![
                    Field::new("", path.0, Ty::Int(true, 8), false),
                    Field::new("", path.1, Ty::Int(true, 16), false),
                    Field::new("", path.2, Ty::Int(true, 32), false),
                    Field::new("", path.3, Ty::Int(false, 16), false),
                    Field::new("", path.4, Ty::Int(false, 32), false),
                    Field::new("", path.5, Ty::Int(false, 64), false),
                ];
                if self.r.chance(25) {
                    let i = self.r.idx(ps.len());
                    ps[i].text = self.bad_value(&ps[i].ty, false).unwrap();
                    ok = false;
                }
                let mut qs = vec![
                    Field::new("i1", query.i1, Ty::Int(true, 8), false),
                    Field::new("i2", query.i2, Ty::Int(true, 16), false),
                    Field::new("i4", query.i4, Ty::Int(true, 32), false),
                    Field::new("i8_", query.i8_, Ty::Int(true, 64), false),
                    Field::new("u1", query.u1, Ty::Int(false, 8), false),
                    Field::new("u2", query.u2, Ty::Int(false, 16), false),
                    Field::new("u4", query.u4, Ty::Int(false, 32), false),
                    Field::new("u8_", query.u8_, Ty::Int(false, 64), false),
                    Field::new("z", query.z, Ty::Int(false, 64), false),
                ];
                if self.r.chance(50) {
                    ok &= self.perturb(&mut qs, false).0;
                }
                let mut fs = vec![
                    Field::new("x-i1", header.i1, Ty::Int(true, 8), false),
                    Field::new("x-i2", header.i2, Ty::Int(true, 16), false),
                    Field::new("x-i4", header.i4, Ty::Int(true, 32), false),
                    Field::new("x-i8", header.i8_, Ty::Int(true, 64), false),
                    Field::new("x-u1", header.u1, Ty::Int(false, 8), false),
                    Field::new("x-u2", header.u2, Ty::Int(false, 16), false),
                    Field::new("x-u4", header.u4.unwrap(), Ty::Int(false, 32), true),
                    Field::new("x-u8", header.u8_, Ty::Int(false, 64), false),
                    Field::new("x-f4", header.f4, Ty::Float, false),
                    Field::new("x-f8", header.f8, Ty::Float, false),
                ];
                if self.r.chance(60) {
                    let (o, gone) = self.perturb(&mut fs, true);
                    ok &= o;
                    if gone.contains(&"x-u4") {
                        header.u4 = None;
                    }
                }
                fs.push(Field::new("x-call-id", &t, Ty::Str, false));
                let line = format!("PUT /ints/{}?{}", self.path_text(&ps), self.query_text(&qs));
                let q = procs::IntsReq { path, query, header, body: Body(b.clone()) };
                (line, self.header_lines(&fs), "Ints", format!("{:?}", q))
            }
            2 => {
                let r = &mut self.r;
                let path = (
                    r.chance(50),
                    int(r) as i64,
                    (int(r) as i32) as f64 / 8.0,
                    self.word(),
                    int(&mut self.r) as u8,
                    (int(&mut self.r) as i16) as f32 / 4.0,
                    procs::Wrap(self.word()),
                );
                let mut ps = vec![
                    Field::new("", path.0, Ty::Bool, false),
                    Field::new("", path.1, Ty::Int(true, 64), false),
                    Field::new("", path.2, Ty::Float, false),
                    Field::new("", "mid", Ty::Str, false),
                    Field::new("", &path.3, Ty::Str, false),
                    Field::new("", path.4, Ty::Int(false, 8), false),
                    Field::new("", path.5, Ty::Float, false),
                    Field::new("", &(path.6).0, Ty::Str, false),
                ];
                if self.r.chance(50) {
                    let i = *self.r.pick(&[0usize, 1, 2, 4, 5, 6, 7]);
                    let v = match ps[i].ty {
                        Ty::Str => Some(self.r.pick(&[&b"\xff\xfe"[..], b"a\xc3", b"\x80z", b"ok\xe2\x82"]).to_vec()),
                        ref ty => self.bad_value(ty, false),
                    };
                    ps[i].text = v.unwrap();
                    ok = false;
                }
                let fs = [Field::new("x-call-id", &t, Ty::Str, false)];
                let line = format!("GET /v/{}", self.path_text(&ps));
                let q = procs::VarsReq { path, header: procs::IdHead { id: t.clone() }, body: Body(b.clone()) };
                (line, self.header_lines(&fs), "Vars", format!("{:?}", q))
            }
            _ => {
                let r = &mut self.r;
                let mut q = procs::AllQuery {
                    id: t.clone(),
                    b: r.chance(50),
                    ob: Some(r.chance(50)),
                    f: (int(r) as i16) as f32 / 4.0,
                    d: (int(r) as i32) as f64 / 8.0,
                    os: None,
                    s: String::new(),
                    on: Some(int(r) as i16),
                    j: procs::Nested { a: int(r) as i32, b: vec![], c: None, m: None },
                };
                q.os = Some(self.word());
                q.s = self.word();
                let json = format!(" {{ \"b\" : [ ] ,\n\"c\":null, \"a\": {} }} ", q.j.a);
                let mut qs = vec![
                    Field::new("b", q.b, Ty::Bool, false),
                    Field::new("ob", q.ob.unwrap(), Ty::Bool, true),
                    Field::new("f", q.f, Ty::Float, false),
                    Field::new("d", q.d, Ty::Float, false),
                    Field::new("os", q.os.as_ref().unwrap(), Ty::Str, true),
                    Field::new("s", &q.s, Ty::Str, false),
                    Field::new("on", q.on.unwrap(), Ty::Int(true, 16), true),
                    Field::new("j", json, Ty::Json, false),
                ];
                let (o, gone) = self.perturb(&mut qs, false);
                ok &= o;
                for g in gone {
                    match g {
                        "ob" => q.ob = None,
                        "os" => q.os = None,
                        _ => q.on = None,
                    }
                }
                qs.push(Field::new("id", &t, Ty::Str, false));
                if self.r.chance(30) {
                    let n = *self.r.pick(&["x", "s", "b", "id", "", "null"]);
                    let at = self.r.idx(qs.len() + 1);
                    qs.insert(at, Field::new("unknown", n, Ty::Str, false));
                }
                let line = format!("GET /q?{}", self.query_text(&qs));
                let q = procs::QueryReq { query: q, body: Body(b.clone()) };
                (line, vec![], "Query", format!("{:?}", q))
            }
        };
        let mut v = format!("{} HTTP/1.1\r\n{}", line, self.extra_headers()).into_bytes();
        v.extend_from_slice(&head);
        if !b.is_empty() {
            v.extend_from_slice(format!("Content-Length: {}\r\n", b.len()).as_bytes());
        }
        v.extend_from_slice(b"\r\n");
        v.extend_from_slice(&b);
        let e = if ok {
            AwaitExpect { id, problem: None, what: what.into(), seen: Some(seen) }
        } else {
            AwaitExpect { id, problem: Some(400), what: String::new(), seen: None }
        };
        self.send_expect(ops, v, e);
    }

    // ------------------------------------------------------------ routing

    fn routing(&mut self) {
        self.server(srv_addr(0), true);
        let to = srv_addr(0);
        let p = if self.r.chance(50) { Some(self.pool_plan(Some(2))) } else { None };
        self.client(p);
        // a small alphabet, so that entry points overlap
        let deep = self.r.chance(4);
        let all: &[&str] = if deep || self.r.chance(60) {
            &["a", "b", "", "a b", "é", "%", "x+y", "c", "A", "?", "~", "longer-segment"]
        } else {
            &[
                "reports", "Reports", "REPORTS", "report", "a/b", "a%2Fb", "a.b", "...", ".x", "x.", "v1.0", "日本", "\u{1F600}", "a\\b", "*", "a;b", "{id}", "_",
                "very-long-constant-segment-of-an-entry-point-0123456789", "very-long-constant-segment-of-an-entry-point-0123456780", "É", "é", "e\u{301}", "a:b@c", "#", "1", "01",
            ]
        };
        let na = self.r.range(1, 4) as usize;
        let mut alpha: Vec<String> = vec![];
        for _ in 0..na {
            alpha.push(self.r.pick(all).to_string());
        }
        let methods: Vec<&str> = {
            let ms: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE"];
            let n = self.r.range(1, 3);
            (0..n).map(|_| *self.r.pick(ms)).collect()
        };
        let nt = self.r.range(1, 12) as usize;
        let maxlen = if deep { self.r.range(5, 40) } else { self.r.range(1, 4) };
        for _ in 0..nt {
            let route = if !self.plan.table.is_empty() && self.r.chance(30) {
                // a variation of an earlier one
                let mut t = self.r.pick(&self.plan.table).clone();
                match self.r.below(4) {
                    0 => {}
                    1 => t.method = self.r.pick(&methods).to_string(),
                    _ => {
                        if !t.segs.is_empty() {
                            let i = self.r.idx(t.segs.len());
                            t.segs[i] = if t.segs[i].is_some() && self.r.chance(70) { None } else { Some(self.r.pick(&alpha).clone()) };
                        }
                    }
                }
                t
            } else {
                let lo = if self.r.chance(20) { 0 } else { 1 };
                let n = self.r.range(lo, maxlen);
                let mut segs = vec![];
                for _ in 0..n {
                    segs.push(if self.r.chance(45) { None } else { Some(self.r.pick(&alpha).clone()) });
                }
                Route { method: self.r.pick(&methods).to_string(), segs }
            };
            // the empty path and the path of one empty segment are the same thing on the wire
            if route.segs.len() == 1 && route.segs[0].as_deref() == Some("") {
                continue;
            }
            // a leading empty segment would make the request target start with "//"
            self.plan.table.push(route);
        }
        let table = self.plan.table.clone();
        for n in 0..2 {
            let mut ph = phase(&format!("requests {}", n), true);
            let mut ops = vec![];
            for _ in 0..self.r.range(1, 10) {
                if table.is_empty() {
                    break;
                }
                let s = self.r.idx(table.len());
                if table[..s].contains(&table[s]) {
                    continue;
                }
                let lv = *self.r.pick(&[1u8, 1, 2]);
                let pooled = self.r.chance(60);
                let cp = self.call(to, Kind::Dyn(s as u8), lv, pooled);
                ops.push(OpPlan::Call(cp));
            }
            ph.tasks.push(TaskPlan::Session { client: 0, ops });
            for _ in 0..self.r.range(1, 2) {
                let mut ops = vec![RawOp::Connect { to }];
                for _ in 0..self.r.range(1, 12) {
                    self.routed_request(&mut ops, &table, &alpha);
                }
                ph.tasks.push(TaskPlan::Raw { good: true, ops });
            }
            self.plan.phases.push(ph);
        }
    }
    fn routed_request(&mut self, ops: &mut Vec<RawOp>, table: &[Route], alpha: &[String]) {
        let id = self.next_raw();
        let mut method = if table.is_empty() { "GET".to_string() } else { self.r.pick(table).method.clone() };
        let mut segs: Vec<Vec<u8>> = vec![];
        if !table.is_empty() && self.r.chance(70) {
            let t = self.r.pick(table).clone();
            if self.r.chance(70) {
                method = t.method.clone();
            }
            for s in &t.segs {
                segs.push(match s {
                    Some(s) => s.clone().into_bytes(),
                    None => self.var_value(alpha),
                });
            }
            match self.r.below(8) {
                0 => segs.push(self.var_value(alpha)),
                1 => {
                    segs.pop();
                }
                2 if !segs.is_empty() => {
                    let i = self.r.idx(segs.len());
                    segs[i] = self.var_value(alpha);
                }
                _ => {}
            }
        } else {
            for _ in 0..self.r.range(0, 5) {
                let v = self.var_value(alpha);
                segs.push(v);
            }
            if self.r.chance(20) {
                method = self.r.pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS"]).to_string();
            }
        }
        if segs.is_empty() {
            segs.push(vec![]);
        }
        let mut path = String::new();
        for s in &segs {
            path.push('/');
            for &b in s {
                let plain = b.is_ascii_alphanumeric() || b"-_~!$&'()*+,;=:@".contains(&b);
                if plain && !self.r.chance(15) {
                    path.push(b as char);
                } else if self.r.chance(50) {
                    path.push_str(&format!("%{:02x}", b));
                } else {
                    path.push_str(&format!("%{:02X}", b));
                }
            }
        }
        let b = self.body_text(id, 0);
        let e = expect_route(table, id, &method, &segs, &b);
        let mut v = format!(
            "{} {}{} HTTP/1.1\r\nX-Call-Id: {}\r\n{}",
            method,
            path,
            self.r.pick(&["", "", "?a=b", "?"]),
            wire::token(id),
            self.extra_headers()
        )
        .into_bytes();
        if !b.is_empty() {
            v.extend_from_slice(format!("Content-Length: {}\r\n", b.len()).as_bytes());
        }
        v.extend_from_slice(b"\r\n");
        v.extend_from_slice(&b);
        self.send_expect(ops, v, e);
    }
    fn var_value(&mut self, alpha: &[String]) -> Vec<u8> {
        match self.r.below(10) {
            0..=4 => self.r.pick(alpha).clone().into_bytes(),
            5 => b"v".to_vec(),
            6 => "日本/\\".as_bytes().to_vec(),
            7 => vec![],
            8 => {
                let v: &[&[u8]] = &[b"\xff", b"a\xc3", b"%41", b"a.b", b"...", b"+", b"a b", b"\x00", b"{}"];
                self.r.pick(v).to_vec()
            }
            _ => b"abc".to_vec(),
        }
    }

    // ------------------------------------------------------------ lifecycle

    /// Servers are stopped, handed over, started again, and started where another one listens.
    fn lifecycle(&mut self) {
        let ns = self.r.range(1, 3) as usize;
        let addrs: Vec<SocketAddr> = (0..ns)
            .map(|i| if i == 2 { SocketAddr::new(srv_addr(0).ip(), 8001) } else { srv_addr(i) })
            .collect();
        for a in &addrs {
            self.server(*a, false);
        }
        let nc = self.r.range(1, 3) as usize;
        for _ in 0..nc {
            let size = *self.r.pick(&[0usize, 1, 2, 8]);
            let p = if self.r.chance(70) {
                Some(PoolPlan { size: Some(size), suspend_ms: Some(20), timeout_ms: None })
            } else {
                None
            };
            self.client(p);
        }
        if self.r.chance(10) {
            let addr = *self.r.pick(&addrs);
            let (m, top) = (self.log_range(1, 40), self.log_range(3, 60));
            for _ in 0..m {
                let nth = self.r.below(top);
                let errno = *self.r.pick(&[103, 24, 24, 23, 105, 71]);
                self.plan.accept_errs.push(AcceptErr { addr, nth, errno });
            }
        }
        let rounds = self.r.range(1, 3);
        let mut up = vec![true; ns];
        for _ in 0..rounds {
            if self.r.chance(60) {
                let mut ph = phase("up", true);
                self.sessions(&mut ph, nc, &addrs);
                if self.r.chance(50) {
                    for _ in 0..self.r.range(1, 3) {
                        let server = self.r.idx(ns);
                        let errno = *self.r.pick(&[None, None, Some(13), Some(99), Some(24), Some(98)]);
                        let at_us = self.r.below(15_000);
                        ph.faults.push(FaultPlan { at_us, f: Fault::RivalServer { server, errno } });
                    }
                }
                self.plan.phases.push(ph);
            }
            let mut ph = phase("stop", false);
            self.sessions(&mut ph, nc, &addrs);
            for s in 0..ns {
                if !self.r.chance(70) {
                    continue;
                }
                let at_us = self.r.below(15_000);
                ph.faults.push(FaultPlan { at_us, f: Fault::StopServer { server: s } });
                up[s] = false;
                if self.r.chance(40) {
                    // handed over to another process
                    let d = self.r.range(2_000, 20_000);
                    ph.faults.push(FaultPlan { at_us: at_us + d, f: Fault::StartServer { server: s } });
                    up[s] = true;
                }
            }
            self.plan.phases.push(ph);
            if self.r.chance(40) {
                let mut ph = phase("stopped", false);
                self.sessions(&mut ph, nc, &addrs);
                self.plan.phases.push(ph);
            }
            let mut ph = phase("start", false);
            for s in 0..ns {
                if !up[s] {
                    ph.faults.push(FaultPlan { at_us: 10, f: Fault::StartServer { server: s } });
                    up[s] = true;
                }
            }
            let ops = vec![OpPlan::Sleep { us: 100_000 }];
            ph.tasks.push(TaskPlan::Session { client: 0, ops });
            self.plan.phases.push(ph);
        }
        let mut ph = phase("again", true);
        self.sessions(&mut ph, nc, &addrs);
        self.plan.phases.push(ph);
    }
    fn sessions(&mut self, ph: &mut PhasePlan, nc: usize, addrs: &[SocketAddr]) {
        for c in 0..nc {
            for _ in 0..self.r.range(1, 3) {
                let mut ops = vec![];
                self.gap(&mut ops, 30, 15_000);
                for _ in 0..self.r.range(1, 4) {
                    let a = *self.r.pick(addrs);
                    let k = match self.r.below(10) {
                        0 => Kind::Big,
                        1 => *self.r.pick(CALLABLE),
                        _ => *self.r.pick(SIMPLE),
                    };
                    let pooled = self.r.chance(80);
                    let mut cp = self.call(a, k, 0, pooled);
                    self.delay(&mut cp, 40, 20_000);
                    ops.push(OpPlan::Call(cp));
                    self.gap(&mut ops, 40, 15_000);
                }
                ph.tasks.push(TaskPlan::Session { client: c, ops });
            }
        }
    }

    // ------------------------------------------------------------ patience

    /// Between `lo` and `hi`, every order of magnitude alike.
    fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        let mut top = lo;
        while top < hi && self.r.chance(70) {
            top = top.saturating_mul(3).min(hi);
        }
        self.r.range(lo, top.max(lo))
    }
    /// Some runs take long: slow handlers and answers, long silences, long stalls.
    fn stretch(&mut self) {
        let ok = ["fidelity", "hostile", "routing", "pool", "rawserver", "lifecycle"];
        if !ok.contains(&self.plan.family.as_str()) {
            return;
        }
        let mut r = Rng::sub(self.plan.seed, 77);
        std::mem::swap(&mut r, &mut self.r);
        if !self.r.chance(12) {
            return;
        }
        let mut total = 0;
        for _ in 0..self.r.range(1, 4) {
            let p = self.r.idx(self.plan.phases.len());
            let phase_ok = self.plan.phases[p].healthy && self.plan.phases[p].faults.is_empty();
            let long = self.log_range(2_000_000, 100_000_000_000);
            if self.plan.family == "fidelity" && self.r.chance(20) {
                let us = self.log_range(2_000_000, 900_000_000);
                let c = CutPlan { conn: self.r.idx(6), dir: self.r.idx(2), off: self.offset(), mode: 2, us };
                self.plan.cuts.push(c);
                total += us;
                continue;
            }
            if self.plan.family == "rawserver" && self.r.chance(60) {
                let i = self.r.idx(self.plan.raws.len());
                let j = self.r.idx(self.plan.raws[i].conns.len());
                let n = self.plan.raws[i].conns[j].replies.len();
                let k = self.r.idx(n);
                self.plan.raws[i].conns[j].replies[k].delay_us = long;
                // (each connection from the last plan on waits as long)
                total += long * 20;
                continue;
            }
            let n = self.plan.phases[p].tasks.len();
            if !phase_ok || n == 0 {
                continue;
            }
            let t = self.r.idx(n);
            let sleep = self.r.chance(50);
            let mut r = self.r.clone();
            if let TaskPlan::Session { ops, .. } = &mut self.plan.phases[p].tasks[t] {
                let i = r.idx(ops.len() + 1);
                if sleep {
                    ops.insert(i, OpPlan::Sleep { us: long });
                    total += long;
                } else if let Some(OpPlan::Call(c)) = ops.get_mut(i) {
                    if c.cancel_us.is_none() && c.cancel_polls.is_none() {
                        c.delay_us = long;
                        total += long;
                    }
                }
            }
            self.r.u64();
        }
        for p in &mut self.plan.phases {
            p.max_ms += total / 1000;
        }
    }

    // ------------------------------------------------------------ bystander

    /// Some calls are stuck for long; the others must not notice.
    fn bystander(&mut self) {
        // delays are judged here: keep the network quick
        self.plan.net.lat_max_us = self.plan.net.lat_max_us.min(500);
        self.plan.net.lat_min_us = self.plan.net.lat_min_us.min(self.plan.net.lat_max_us);
        self.plan.sched.step_ns = self.plan.sched.step_ns.min(2000);
        let ns = self.r.range(1, 3) as usize;
        for i in 0..ns {
            self.server(srv_addr(i), false);
        }
        let hour = 3_600_000_000u64;
        let mut stuck: Vec<SocketAddr> = vec![];
        for i in 0..self.r.range(1, 3) as usize {
            let deaf = self.r.chance(40);
            let k = self.r.below(3);
            // silent, slow to answer, or slow while answering
            let good = b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec();
            let n = good.len();
            let rp = Reply {
                wait_request: !deaf,
                bytes: Blob(match k {
                    0 => vec![],
                    1 => good,
                    _ => good[..self.r.range(1, n as u64 - 1) as usize].to_vec(),
                }),
                chunk: if k == 1 && self.r.chance(50) { 4 } else { 0 },
                gap_us: 10_000_000,
                then: *self.r.pick(&[Then::Close, Then::Rst]),
                hold_us: hour,
                delay_us: self.r.below(60_000_000),
                verdict: Verdict::Any,
            };
            self.plan.raws.push(RawServerPlan { addr: raw_addr(i), conns: vec![RawConnPlan { replies: vec![rp], deaf }] });
            stuck.push(raw_addr(i));
        }
        let hole = self.r.chance(70);
        if hole {
            let a = match self.r.below(3) {
                0 => dead_addr(1),
                1 => SocketAddr::new(srv_addr(0).ip(), 7),
                _ => SocketAddr::new(dead_addr(1).ip(), srv_addr(0).port()),
            };
            stuck.push(a);
            stuck.push(a);
        }
        let nc = self.r.range(1, 2) as usize;
        for _ in 0..nc {
            let p = if self.r.chance(85) {
                let size = *self.r.pick(&[0usize, 1, 1, 2, 3, 8]);
                let timeout_ms = *self.r.pick(&[Some(1000u64), Some(60_000), Some(600_000), None]);
                Some(PoolPlan { size: Some(size), suspend_ms: Some(100), timeout_ms })
            } else {
                None
            };
            self.client(p);
        }
        for p in 0..self.r.range(1, 2) {
            let mut ph = phase(&format!("mixed {}", p), true);
            ph.max_ms = 10 * 3_600_000;
            ph.bound_ms = 500;
            if p == 0 {
                for a in stuck.iter().filter(|a| !self.plan.raws.iter().any(|r| r.addr == **a)) {
                    ph.faults.push(FaultPlan { at_us: 0, f: Fault::Blackhole { addr: *a } });
                }
            }
            for c in 0..nc {
                // the stuck ones
                for _ in 0..self.r.range(1, 6) {
                    let mut ops = vec![];
                    self.gap(&mut ops, 50, 20_000);
                    for _ in 0..self.r.range(1, 2) {
                        let a = *self.r.pick(&stuck);
                        let k = if self.r.chance(30) { Kind::Big } else { *self.r.pick(&[Kind::PathOnly, Kind::BodyOnly, Kind::Root]) };
                        let pooled = self.r.chance(80);
                        let mut cp = self.call(a, k, 0, pooled);
                        cp.cancel_us = Some(self.log_range(100_000, 1_000_000_000));
                        ops.push(OpPlan::Call(cp));
                    }
                    ph.tasks.push(TaskPlan::Session { client: c, ops });
                }
                // the slow ones
                let crowd = match self.plan.seed % 500 {
                    0 => 300 + self.r.below(900),
                    1..=25 => 10 + self.r.below(70),
                    _ => self.r.below(4),
                };
                // (a crowd takes its share of the processor)
                ph.bound_ms += crowd * 25;
                if crowd > 100 {
                    self.plan.net.backlog = 4096;
                    self.plan.sched.max_steps = 10_000_000;
                }
                for _ in 0..crowd {
                    let mut ops = vec![];
                    let a = srv_addr(self.r.idx(ns));
                    let k = if crowd > 100 { Kind::PathOnly } else { *self.r.pick(SIMPLE) };
                    let pooled = self.r.chance(80);
                    let mut cp = self.call(a, k, 0, pooled);
                    cp.delay_us = self.log_range(10_000, 1_000_000_000);
                    if self.r.chance(30) {
                        cp.cancel_us = Some(self.r.range(1, cp.delay_us));
                    }
                    ops.push(OpPlan::Call(cp));
                    ph.tasks.push(TaskPlan::Session { client: c, ops });
                }
                // and those that go on
                for _ in 0..self.r.range(1, 4) {
                    let mut ops = vec![];
                    self.gap(&mut ops, 50, 20_000);
                    for _ in 0..self.r.range(1, 6) {
                        let a = srv_addr(self.r.idx(ns));
                        let k = *self.r.pick(SIMPLE);
                        let pooled = self.r.chance(85);
                        let mut cp = self.call(a, k, 0, pooled);
                        self.delay(&mut cp, 20, 20_000);
                        ops.push(OpPlan::Call(cp));
                        if self.r.chance(40) {
                            let us = self.log_range(1000, 100_000_000);
                            ops.push(OpPlan::Sleep { us });
                        }
                    }
                    ph.tasks.push(TaskPlan::Session { client: c, ops });
                }
            }
            self.plan.phases.push(ph);
        }
    }

    // ------------------------------------------------------------ pool

    /// More calls at once than connections are kept by default.
    fn default_size(&mut self) {
        for i in 0..2 {
            self.server(srv_addr(i), false);
        }
        self.plan.net.seg_mode = 0;
        self.plan.net.cap = 65_536;
        self.plan.net.backlog = 4096;
        self.plan.sched.max_steps = 10_000_000;
        self.client(Some(PoolPlan { size: None, suspend_ms: None, timeout_ms: Some(60_000) }));
        let n = *self.r.pick(&[1000u64, 1024, 1025, 1030, 1100]);
        for p in 0..self.r.range(1, 2) {
            let mut ph = phase(&format!("many {}", p), true);
            for i in 0..n {
                let mut cp = self.call(srv_addr((i % 2) as usize), Kind::PathOnly, 0, true);
                cp.delay_us = 3_000_000 + self.r.below(100_000);
                ph.tasks.push(TaskPlan::Session { client: 0, ops: vec![OpPlan::Call(cp)] });
            }
            self.plan.phases.push(ph);
        }
    }
    /// Many calls at once, over and over, and pools that keep all, most or some of the connections.
    fn crowds(&mut self) {
        let ns = self.r.range(1, 4) as usize;
        for i in 0..ns {
            self.server(srv_addr(i), false);
        }
        self.plan.net.seg_mode = 0;
        self.plan.net.cap = 65_536;
        self.plan.sched.max_steps = 10_000_000;
        let n = self.log_range(10, 400);
        let size = match self.r.below(6) {
            0 | 1 => None,
            2 => Some(n as usize),
            3 => Some(n as usize - 1),
            4 => Some(n as usize + 3),
            _ => Some(self.r.range(1, n) as usize),
        };
        self.client(Some(PoolPlan { size, suspend_ms: None, timeout_ms: Some(60_000) }));
        for p in 0..self.r.range(2, 4) {
            let mut ph = phase(&format!("crowd {}", p), true);
            let m = if p == 0 || self.r.chance(30) { n } else { self.r.range(1, n) };
            let spread = *self.r.pick(&[0u64, 100_000, 2_000_000]);
            for _ in 0..m {
                let a = srv_addr(self.r.idx(ns));
                let mut cp = self.call(a, Kind::PathOnly, 0, true);
                cp.delay_us = 500_000 + if spread > 0 { self.r.below(spread) } else { 0 };
                ph.tasks.push(TaskPlan::Session { client: 0, ops: vec![OpPlan::Call(cp)] });
            }
            self.plan.phases.push(ph);
        }
    }
    fn pool(&mut self) {
        if self.plan.seed % 400 == 0 {
            return self.default_size();
        }
        if self.plan.seed % 40 == 1 {
            return self.crowds();
        }
        if self.plan.seed % 50 == 9 {
            return self.marathon();
        }
        let addrs: Vec<SocketAddr> = {
            let all = if self.r.chance(12) {
                // the same address in different scopes is not the same address
                ["[fe80::1%2]:8000", "[fe80::1%1]:8000", "[fe80::1%3]:8000", "[fe80::1%3]:8001", "[fe80::2%1]:8000"]
            } else {
                ["10.0.0.1:8000", "10.0.0.1:8001", "10.0.0.2:8000", "[fd00::1]:8000", "[fd00::1]:8001"]
            };
            let n = self.r.range(1, 4) as usize;
            let s = self.r.idx(2);
            all.iter().skip(s).take(n).map(|a| a.parse().unwrap()).collect()
        };
        for a in &addrs {
            self.server(*a, false);
        }
        let nc = self.r.range(1, 2) as usize;
        let suspend = 100;
        for _ in 0..nc {
            let size = *self.r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 5, 8]);
            self.client(Some(PoolPlan {
                size: Some(size),
                suspend_ms: Some(suspend),
                timeout_ms: None,
            }));
        }
        let cancels = self.r.chance(25);
        let np = self.r.range(2, 6);
        let mut dropped = false;
        for p in 0..np {
            let mut ph = phase(&format!("calls {}", p), true);
            for c in 0..nc {
                for _ in 0..self.r.range(0, 4) {
                    let mut ops = vec![];
                    if self.r.chance(30) {
                        ops.push(OpPlan::Sleep { us: self.r.below(10_000) });
                    }
                    for _ in 0..self.r.range(1, 3) {
                        let a = *self.r.pick(&addrs);
                        let k = if self.r.chance(10) { *self.r.pick(CALLABLE) } else { *self.r.pick(SIMPLE) };
                        let lv = if self.r.chance(5) { 2 } else { 0 };
                        let mut cp = self.call(a, k, lv, true);
                        self.delay(&mut cp, 50, 20_000);
                        if cancels {
                            self.cancel(&mut cp, 30);
                        }
                        ops.push(OpPlan::Call(cp));
                        self.gap(&mut ops, 30, 10_000);
                    }
                    ph.tasks.push(TaskPlan::Session { client: c, ops });
                }
            }
            if p + 1 == np && self.r.chance(15) {
                dropped = true;
                ph.healthy = false;
                let client = self.r.idx(nc);
                let at_us = self.r.below(10_000);
                ph.faults.push(FaultPlan { at_us, f: Fault::DropPool { client } });
            }
            self.plan.phases.push(ph);
            if p + 1 < np && self.r.chance(20) {
                // restart of a server, then recovery
                let s = self.r.idx(addrs.len());
                let mut ph = phase("restart", false);
                ph.faults.push(FaultPlan { at_us: 10, f: Fault::KillServer { server: s, silent: false } });
                ph.faults.push(FaultPlan { at_us: 5000, f: Fault::StartServer { server: s } });
                self.plan.phases.push(ph);
                let mut ph = phase("recover", false);
                ph.recover = true;
                for c in 0..nc {
                    for a in &addrs {
                        let mut ops = vec![OpPlan::Sleep { us: (suspend + 50) * 1000 }];
                        for _ in 0..10 {
                            let k = *self.r.pick(SIMPLE);
                            let cp = self.call(*a, k, 0, true);
                            ops.push(OpPlan::Call(cp));
                        }
                        ph.tasks.push(TaskPlan::Session { client: c, ops });
                    }
                }
                self.plan.phases.push(ph);
            }
        }
        if dropped {
            // nothing may be left open afterwards
            self.plan.phases.push(phase("end", false));
        }
    }

    // ------------------------------------------------------------ connect

    fn connect(&mut self) {
        let ns = self.r.range(1, 3) as usize;
        // (addresses that differ in the host, in the port, or in both)
        let all = if self.r.chance(10) {
            ["[fe80::1%2]:8000", "[fe80::1%1]:8000", "[fe80::1%3]:8000", "[fe80::1%3]:8001", "[fe80::2%1]:8000", "[fe80::2]:8000"]
        } else {
            ["10.0.0.1:8000", "10.0.0.2:8000", "10.0.0.1:8001", "[fd00::1]:8000", "10.0.0.2:8001", "[fd00::1]:8001"]
        };
        let first = self.r.idx(4);
        let mut addrs: Vec<SocketAddr> = all.iter().skip(first).take(ns).map(|a| a.parse().unwrap()).collect();
        let ns = addrs.len();
        for a in &addrs {
            self.server(*a, false);
        }
        match self.r.below(5) {
            0 => addrs.push(dead_addr(0)),
            1 => addrs.push(SocketAddr::new(addrs[0].ip(), 9)),
            2 => addrs.push(SocketAddr::new(dead_addr(0).ip(), addrs[0].port())),
            _ => {}
        }
        // many addresses out of order at once
        let many = self.plan.seed % 25 == 3;
        if many {
            let n = if self.r.chance(25) { self.r.range(60, 1200) } else { self.r.range(6, 60) };
            for i in 0..n {
                addrs.push(SocketAddr::new([10, 0, 9 + (i / 500) as u8, (i / 2 % 250) as u8].into(), 8000 + (i % 2) as u16));
            }
        }
        let crowd = addrs.len() > 60;
        let mut timeout = *self.r.pick(&[None, Some(50u64), Some(200), Some(1000), Some(3000)]);
        let mut suspend = *self.r.pick(&[Some(50u64), Some(100), Some(500), Some(2000), Some(10_000), None]);
        if self.r.chance(12) {
            // extreme ones
            match self.r.below(4) {
                0 => timeout = Some(*self.r.pick(&[15_000u64, 70_000, 400_000, 4_000_000])),
                1 => timeout = Some(0),
                2 => suspend = Some(0),
                _ => suspend = Some(*self.r.pick(&[120_000u64, 700_000, 4_000_000, 100_000_000])),
            }
        }
        if crowd {
            timeout = None;
            suspend = *self.r.pick(&[Some(10_000), None]);
        }
        let nc = if !crowd && self.r.chance(25) { 2 } else { 1 };
        for _ in 0..nc {
            let size = *self.r.pick(&[0usize, 1, 4]);
            self.client(Some(PoolPlan { size: Some(size), suspend_ms: suspend, timeout_ms: timeout }));
        }
        let t = timeout.unwrap_or(1000);
        let d = suspend.unwrap_or(60_000);
        // keep the connect latency well below the timeout
        self.plan.net.lat_max_us = self.plan.net.lat_max_us.min(if t == 0 { 10_000 } else { t * 1000 / 10 });
        self.plan.net.lat_min_us = self.plan.net.lat_min_us.min(self.plan.net.lat_max_us);
        let mut ph = phase("connect", false);
        ph.max_ms = 3_600_000.max(20 * (t + d));
        let scale = (t + d).min(20_000) * 1000;
        for a in addrs.iter().take(ns) {
            let mut at = 0;
            for _ in 0..self.r.range(0, 4) {
                let us = match self.r.below(3) {
                    0 => self.r.range(1, t * 900 + 1),
                    1 => self.r.range(t * 1100, t * 3000 + 1),
                    _ => self.r.range(1, 5000),
                };
                let f = match self.r.below(6) {
                    0 => Fault::Refuse { addr: *a },
                    1 => Fault::Blackhole { addr: *a },
                    2 => Fault::ConnectErr { addr: *a, errno: *self.r.clone().pick(&[101, 113, 99, 13]) },
                    3 => Fault::Slow { addr: *a, us },
                    _ => Fault::Normal { addr: *a },
                };
                ph.faults.push(FaultPlan { at_us: at, f });
                at += self.r.range(1, scale);
            }
        }
        for _ in 0..self.r.below(3) {
            let at_us = self.r.below(scale * 2);
            let secs = *self.r.pick(&[-100_000i64, -3600, -30, 30, 3600, 100_000]);
            ph.faults.push(FaultPlan { at_us, f: Fault::WallJump { secs } });
        }
        if crowd {
            // each of them twice
            let mut ops = vec![];
            for _ in 0..2 {
                for a in &addrs {
                    let k = *self.r.pick(SIMPLE);
                    ops.push(OpPlan::Call(self.call(*a, k, 0, true)));
                }
            }
            ph.tasks.push(TaskPlan::Session { client: 0, ops });
        }
        for _ in 0..self.r.range(1, 3) {
            let mut ops = vec![];
            let n = if many { self.r.range(20, 150) } else { self.r.range(1, 10) };
            for _ in 0..n {
                let a = *self.r.pick(&addrs);
                let k = *self.r.pick(SIMPLE);
                let mut cp = self.call(a, k, 0, true);
                self.delay(&mut cp, 25, (3 * t * 1000).max(1000).min(60_000_000));
                ops.push(OpPlan::Call(cp));
                match if many && !self.r.chance(8) { 0 } else { self.r.below(4) } {
                    0 => {}
                    1 => ops.push(OpPlan::Sleep { us: self.r.range(1, d * 300 + 1) }),
                    2 => ops.push(OpPlan::Sleep { us: self.r.range(d * 700, d * 1300 + 1) }),
                    _ => ops.push(OpPlan::Sleep { us: self.r.range(1, t * 1500 + 1) }),
                }
            }
            let client = self.r.idx(nc);
            ph.tasks.push(TaskPlan::Session { client, ops });
        }
        self.plan.phases.push(ph);
        let mut ph = phase("normal again", false);
        for a in addrs.iter().take(ns) {
            ph.faults.push(FaultPlan { at_us: 1, f: Fault::Normal { addr: *a } });
        }
        ph.max_ms = 3_600_000.max(20 * (t + d));
        ph.tasks.push(TaskPlan::Session {
            client: 0,
            ops: vec![OpPlan::Sleep { us: (d + t + 1000) * 1000 }],
        });
        self.plan.phases.push(ph);
        let mut ph = phase("healthy", t > 0);
        for i in 0..ns {
            let k = *self.r.pick(SIMPLE);
            let mut cp = self.call(addrs[i], k, 0, true);
            self.delay(&mut cp, 50, (3 * t * 1000).max(1000).min(60_000_000));
            let client = self.r.idx(nc);
            ph.tasks.push(TaskPlan::Session { client, ops: vec![OpPlan::Call(cp)] });
        }
        self.plan.phases.push(ph);
        if self.r.chance(20) {
            let n = self.r.range(1, 3);
            self.stalls(n);
        }
    }

    // ------------------------------------------------------------ raw server

    fn rawserver(&mut self) {
        self.server(srv_addr(0), false);
        let nr = self.r.range(1, 2) as usize;
        let pool = if self.r.chance(70) {
            Some(PoolPlan {
                size: Some(*self.r.clone().pick(&[0usize, 1, 4])),
                suspend_ms: Some(50),
                timeout_ms: None,
            })
        } else {
            None
        };
        self.r.u64();
        self.client(pool);
        let mut tys = vec![];
        for i in 0..nr {
            let ty = *self.r.pick(&[0u8, 0, 1, 2, 3]);
            tys.push(ty);
            let conns = (0..self.r.range(1, 5)).map(|_| self.raw_conn(ty)).collect();
            self.plan.raws.push(RawServerPlan { addr: raw_addr(i), conns });
        }
        let mut ph = phase("raw", false);
        for _ in 0..self.r.range(1, 3) {
            let mut ops = vec![];
            for _ in 0..self.r.range(1, 6) {
                let n = self.r.idx(nr);
                let a = if self.r.chance(80) { raw_addr(n) } else { srv_addr(0) };
                let k = if a == srv_addr(0) {
                    *self.r.pick(SIMPLE)
                } else {
                    match tys[n] {
                        0 => *self.r.pick(&[Kind::PathOnly, Kind::Ints, Kind::BodyOnly, Kind::Root]),
                        1 => *self.r.pick(&[Kind::Status, Kind::Query, Kind::Header, Kind::Echo]),
                        2 => Kind::AllEnum,
                        _ => Kind::ProbEnum,
                    }
                };
                let pooled = self.r.chance(70);
                let mut cp = self.call(a, k, 0, pooled);
                self.cancel(&mut cp, 5);
                ops.push(OpPlan::Call(cp));
                self.gap(&mut ops, 20, 10_000);
            }
            ph.tasks.push(TaskPlan::Session { client: 0, ops });
        }
        self.plan.phases.push(ph);
        let mut ph = phase("healthy", true);
        let mut ops = vec![];
        for _ in 0..3 {
            let k = *self.r.pick(SIMPLE);
            let cp = self.call(srv_addr(0), k, 0, true);
            ops.push(OpPlan::Call(cp));
        }
        ph.tasks.push(TaskPlan::Session { client: 0, ops });
        self.plan.phases.push(ph);
    }
    /// What a response means to a caller that expects response type `ty` (None: nothing it takes).
    fn value(ty: u8, status: u16, body: &[u8], head: &procs::ResHead) -> Option<String> {
        let body = Body(body.to_vec());
        let header = head.clone();
        match ty {
            0 => Some(format!("{:?}", procs::MinRes { status, body })),
            1 => Some(format!("{:?}", procs::StdRes { status, header, body })),
            2 => procs::all_res_of(status, header, body).map(|r| format!("{:?}", r)),
            _ => match status {
                200 => Some(format!("{:?}", procs::ProbRes::Ok { header, body })),
                204 => Some("NoContent".into()),
                _ => None,
            },
        }
    }
    fn raw_conn(&mut self, ty: u8) -> RawConnPlan {
        let mut replies = vec![];
        for _ in 0..self.r.range(1, 4) {
            let r = self.raw_reply(ty);
            let last = r.then != Then::Keep;
            replies.push(r);
            if last {
                break;
            }
        }
        RawConnPlan { replies, deaf: false }
    }
    fn raw_reply(&mut self, ty: u8) -> Reply {
        let status = loop {
            let s = self.r.pick(procs::CODES).1;
            if !procs::bodyless(s) {
                break s;
            }
        };
        let n = *self.r.pick(&[0usize, 1, 10, 500, 9000]);
        let mut body: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let status = if ty == 3 { *self.r.pick(&[200u16, 200, 404, 400, 503, 201, status]) } else { status };
        let mut head = procs::ResHead {
            ct: procs::TextPlain,
            rid: self.word(),
            opt: Some(self.word()),
            flag: Some(self.r.chance(50)),
            num: procs::Wrap(self.r.u64() as i32 >> self.r.below(32)),
            flt: Some(self.r.u64() as i16 as f64 / 8.0),
            big: Some(self.r.u64() >> self.r.below(64)),
            bin: Some(self.bin()),
        };
        let mut typed = vec![];
        let mut conv = true;
        let problem = ty == 3 && [400, 404, 405, 500, 503].contains(&status);
        let mut pval = None;
        if problem {
            let title = self.r.pick(&["x", "", "é \\\"q"]).to_string();
            body = format!("{{\"status\": {}, \"type\": \"about:blank\",\n \"title\": \"{}\"}}", status, title).into_bytes();
            let title: String = title.replace("\\\"", "\"");
            let name = procs::CODES.iter().find(|c| c.1 == status).unwrap().0;
            pval = Some(format!("{}(AboutBlank(AboutBlankProblem {{ title: {:?}, status: {} }}))", name, title, status));
            typed = b"Content-Type: application/problem+json\r\n".to_vec();
        } else if ty > 0 {
            let mut fs = vec![
                Field::new("content-type", "text/plain; charset=utf-8", Ty::Const, false),
                Field::new("x-rid", &head.rid, Ty::Str, false),
                Field::new("x-ropt", head.opt.as_ref().unwrap(), Ty::Str, true),
                Field::new("x-rflag", head.flag.unwrap(), Ty::Bool, true),
                Field::new("x-rnum", head.num.0, Ty::Int(true, 32), false),
                Field::new("x-rflt", head.flt.unwrap(), Ty::Float, true),
                Field::new("x-rbig", head.big.unwrap(), Ty::Int(false, 64), true),
                Field::bytes("x-rbin", head.bin.as_ref().unwrap(), true),
            ];
            if self.r.chance(60) {
                let (ok, gone) = self.perturb(&mut fs, true);
                conv = ok;
                for g in gone {
                    match g {
                        "x-ropt" => head.opt = None,
                        "x-rflag" => head.flag = None,
                        "x-rflt" => head.flt = None,
                        "x-rbin" => head.bin = None,
                        _ => head.big = None,
                    }
                }
            }
            typed = self.header_lines(&fs);
        }
        // (what it carries to the caller, given the status and the body)
        let value = move |status: u16, body: &[u8]| -> Option<String> {
            if pval.is_some() {
                return pval.clone();
            }
            if !conv {
                return None;
            }
            Self::value(ty, status, body, &head)
        };
        let must = |v: Option<String>| v.map_or(Verdict::Err, Verdict::Value);
        let may = |v: Option<String>| v.map_or(Verdict::Err, Verdict::ValueOrErr);
        let reason = *self.r.pick(&["OK", "OK", "Not Found", "Some Reason", ""]);
        let mut hs: Vec<String> = vec![];
        let clname = *self.r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]);
        hs.push(format!("{}: {}", clname, body.len()));
        for _ in 0..self.r.below(4) {
            let h = self
                .r
                .pick(&["Server: x", "Date: Mon, 01 Jan 2024 00:00:00 GMT", "Connection: keep-alive", "Connection: upgrade-x, keep-alive", "X-Empty:", "x-y:z", "Set-Cookie: a=b"])
                .to_string();
            let at = self.r.idx(hs.len() + 1);
            hs.insert(at, h);
        }
        if self.r.chance(12) {
            let h = self.r.pick(&["Connection: close", "connection: Close", "Connection: keep-alive, close", "CONNECTION:x , CLOSE"]).to_string();
            let at = self.r.idx(hs.len() + 1);
            hs.insert(at, h);
        }
        let build = |line: String, hs: &[String], body: &[u8]| -> Vec<u8> {
            let mut v = line.into_bytes();
            v.extend_from_slice(b"\r\n");
            v.extend_from_slice(&typed);
            for h in hs {
                v.extend_from_slice(h.as_bytes());
                v.extend_from_slice(b"\r\n");
            }
            v.extend_from_slice(b"\r\n");
            v.extend_from_slice(body);
            v
        };
        let minor = if self.r.chance(8) { 0 } else { 1 };
        let good = build(format!("HTTP/1.{} {} {}", minor, status, reason), &hs, &body);
        let close = *self.r.pick(&[Then::Close, Then::Close, Then::Rst, Then::HalfClose]);
        let other: Vec<String> = hs.iter().filter(|h| !h.to_ascii_lowercase().starts_with("content-length")).cloned().collect();
        let with = |l: &str| -> Vec<String> {
            let mut v = other.clone();
            v.push(l.to_string());
            v
        };
        let mut wait = true;
        let (bytes, verdict, then): (Vec<u8>, Verdict, Then) = match self.r.below(26) {
            0..=3 => (good, must(value(status, &body)), if self.r.chance(60) { Then::Keep } else { close }),
            4..=7 => {
                // cut off at some byte
                let k = self.r.idx(good.len());
                let k = if self.r.chance(30) { good.len() - 1 } else { k };
                (good[..k].to_vec(), Verdict::Err, close)
            }
            8 => {
                let n = self.r.range(0, 300) as usize;
                let mut v = self.r.bytes(n);
                if v.starts_with(b"HTTP/1.") {
                    v[0] = b'X';
                }
                (v, Verdict::Err, close)
            }
            9 => {
                let s = *self.r.pick(&[299u16, 600, 999, 0, 99, 199, 420, 599]);
                (build(format!("HTTP/1.1 {:03} {}", s, reason), &hs, &body), may(if problem { None } else { value(s, &body) }), close)
            }
            10 => {
                let s = *self.r.pick(&["HTTP/1.1 2x0 OK", "HTTP/1.1 OK", "HTTP/1.1", "HTTP/9.9 200 OK", "200 OK", "HTTP/1.1 -20 OK", "HTTP/1.1  200 OK", "", "ICY 200 OK", "HTTP/1.1 20 OK"]);
                (build(s.to_string(), &hs, &body), Verdict::Err, close)
            }
            11 => {
                let s = *self.r.pick(&["HTTP/1.1 2000 OK", "HTTP/1.1 99999999999 OK", "HTTP/1.1 65736 OK"]);
                (build(s.to_string(), &hs, &body), Verdict::Err, close)
            }
            12 => {
                let l = *self.r.pick(&["Content-Length: abc", "Content-Length: -1", "Content-Length: 18446744073709551616", "Content-Length: 0x10", "Content-Length: 1 2", "Content-Length: 1.0"]);
                (build(format!("HTTP/1.1 {} {}", status, reason), &with(l), &body), Verdict::Err, close)
            }
            13 => {
                let l = *self.r.pick(&["Content-Length: 18446744073709551615", "Content-Length: 9223372036854775807", "Content-Length: 4294967296", "Content-Length: 100000000"]);
                (build(format!("HTTP/1.1 {} {}", status, reason), &with(l), &body), Verdict::Err, close)
            }
            14 => {
                // the length says less: the rest is not part of the message
                if body.len() < 2 {
                    (good, must(value(status, &body)), close)
                } else {
                    let k = self.r.idx(body.len());
                    let v = if problem { Verdict::Any } else { must(value(status, &body[..k])) };
                    (build(format!("HTTP/1.1 {} {}", status, reason), &with(&format!("Content-Length: {}", k)), &body), v, close)
                }
            }
            15 => {
                let l = *self.r.pick(&["no colon", ": x", "a b: c", "x\u{1}: y", "X: a\u{0}b"]);
                let mut h = hs.clone();
                h.push(l.to_string());
                (build(format!("HTTP/1.1 {} {}", status, reason), &h, &body), may(value(status, &body)), close)
            }
            16 => {
                let mut h = hs.clone();
                h.push(format!("X-Big: {}", "q".repeat(self.r.range(7900, 40_000) as usize)));
                (build(format!("HTTP/1.1 {} {}", status, reason), &h, &body), may(value(status, &body)), close)
            }
            17 => {
                let mut h = hs.clone();
                for i in 0..self.r.range(10, 200) {
                    h.push(format!("X-{}: {}", i, i));
                }
                (build(format!("HTTP/1.1 {} {}", status, reason), &h, &body), may(value(status, &body)), close)
            }
            18 => (vec![], Verdict::Err, close),
            19 => {
                // says nothing about the length
                let v = if close == Then::Rst { Verdict::Err } else { must(value(status, &body)) };
                (build(format!("HTTP/1.1 {} {}", status, reason), &other, &body), v, close)
            }
            21 | 22 => {
                let coded = self.chunked(&body);
                let v = build(format!("HTTP/1.1 {} {}", status, reason), &with("Transfer-Encoding: chunked"), &coded);
                (v, must(value(status, &body)), if self.r.chance(60) { Then::Keep } else { close })
            }
            23 => {
                // cut off anywhere, the last byte at the latest
                let coded = self.chunked(&body);
                let v = build(format!("HTTP/1.1 {} {}", status, reason), &with("Transfer-Encoding: chunked"), &coded);
                let k = self.r.idx(v.len());
                let k = if self.r.chance(30) { v.len() - 1 } else if self.r.chance(40) { v.len() - 1 - self.r.idx(coded.len()) } else { k };
                (v[..k].to_vec(), Verdict::Err, close)
            }
            24 => {
                // chunks that are none
                let c = *self.r.pick(&[&b"x"[..], b"5\r\nab", b"-1\r\n", b"+1\r\na\r\n0\r\n\r\n", b"\r\n", b"5 5\r\nabcde\r\n0\r\n\r\n", b"fffffffffffffffff\r\n", b"ffffffffffffffff\r\nabc", b"3\r\nabcd\r\n0\r\n\r\n"]);
                (build(format!("HTTP/1.1 {} {}", status, reason), &with("Transfer-Encoding: chunked"), c), Verdict::Err, close)
            }
            25 => {
                // two answers to the question of the length
                let coded = self.chunked(&body);
                let mut h = with("Transfer-Encoding: chunked");
                h.push(format!("Content-Length: {}", self.r.pick(&[0usize, 1, body.len(), coded.len()])));
                (build(format!("HTTP/1.1 {} {}", status, reason), &h, &coded), may(value(status, &body)), close)
            }
            20 => {
                wait = self.r.chance(50);
                (good, if wait { must(value(status, &body)) } else { Verdict::Any }, close)
            }
            _ => {
                // damage
                let mut v = good;
                let i = self.r.idx(v.len());
                v[i] = self.r.below(256) as u8;
                (v, Verdict::Any, close)
            }
        };
        let (chunk, gap_us) = match self.r.below(4) {
            0 => (1 + self.r.idx(30), self.r.below(500)),
            1 if bytes.len() < 300 => (1, self.r.range(1, 5000)),
            _ => (0, 0),
        };
        let chunk = if bytes.len() > 3000 && chunk > 0 { chunk.max(300) } else { chunk };
        Reply {
            wait_request: wait,
            bytes: Blob(bytes),
            chunk,
            gap_us,
            then,
            hold_us: if self.r.chance(30) { self.r.below(200_000) } else { 0 },
            delay_us: 0,
            verdict,
        }
    }

    // ------------------------------------------------------------ threads

    fn threads(&mut self) {
        self.plan.os_threads = true;
        self.plan.servers.push(ServerPlan {
            addr: srv_addr(0),
            threads: self.r.clone().range(2, 4) as usize,
            pollers: 1,
            routed: false,
            logger: false,
        });
        self.r.u64();
        let nc = self.r.range(1, 3) as usize;
        for _ in 0..nc {
            let p = if self.r.chance(60) { Some(self.pool_plan(Some(8))) } else { None };
            self.client(p);
        }
        let kinds: Vec<Kind> = {
            let n = self.r.range(1, 3);
            (0..n).map(|_| *self.r.pick(CALLABLE)).collect()
        };
        // delays are judged here: keep the network quick
        self.plan.net.lat_max_us = self.plan.net.lat_max_us.min(500);
        self.plan.net.lat_min_us = self.plan.net.lat_min_us.min(self.plan.net.lat_max_us);
        self.plan.sched.step_ns = self.plan.sched.step_ns.min(2000);
        let slow = self.r.chance(50);
        let mut ph = phase("threads", true);
        ph.bound_ms = 400;
        for c in 0..nc {
            for _ in 0..self.r.range(1, 4) {
                let mut ops = vec![];
                for _ in 0..self.r.range(1, 4) {
                    let k = *self.r.pick(&kinds);
                    let pooled = self.r.chance(50);
                    let mut cp = self.call(srv_addr(0), k, 0, pooled);
                    if slow {
                        self.delay(&mut cp, 60, 1_000_000);
                    }
                    ops.push(OpPlan::Call(cp));
                }
                ph.tasks.push(TaskPlan::Session { client: c, ops });
            }
        }
        self.plan.phases.push(ph);
    }
}

/// Independent reference of the dispatch rule, over decoded segments.
pub fn winner(table: &[Route], method: &str, segs: &[Vec<u8>]) -> Result<usize, u16> {
    let mut best: Option<usize> = None;
    let mut path_known = false;
    for (i, t) in table.iter().enumerate() {
        // the empty entry point is requested as "/", which is one empty segment
        let own: Vec<Option<String>> = if t.segs.is_empty() { vec![Some(String::new())] } else { t.segs.clone() };
        if own.len() != segs.len() {
            continue;
        }
        if !own.iter().zip(segs).all(|(p, s)| p.as_ref().map_or(true, |p| p.as_bytes() == &s[..])) {
            continue;
        }
        path_known = true;
        if t.method != method {
            continue;
        }
        let better = match best {
            None => true,
            Some(b) => {
                let pb = &table[b].segs;
                // constants before variables, from left to right; the first of equals
                let mut r = false;
                for (x, y) in t.segs.iter().zip(pb) {
                    if x.is_some() != y.is_some() {
                        r = x.is_some();
                        break;
                    }
                }
                // the entry point "" against a lone variable
                if t.segs.len() != pb.len() {
                    r = t.segs.is_empty();
                }
                r
            }
        };
        if better {
            best = Some(i);
        }
    }
    best.ok_or(if path_known { 405 } else { 404 })
}
fn expect_route(table: &[Route], id: u64, method: &str, segs: &[Vec<u8>], body: &[u8]) -> AwaitExpect {
    let bad = |n| AwaitExpect {
        id,
        problem: Some(n),
        what: String::new(),
        seen: None,
    };
    match winner(table, method, segs) {
        Err(n) => bad(n),
        Ok(w) => {
            let mut vars = vec![];
            for (p, s) in table[w].segs.iter().zip(segs) {
                if p.is_none() {
                    match String::from_utf8(s.clone()) {
                        Ok(s) => vars.push(s),
                        Err(_) => return bad(400),
                    }
                }
            }
            let q = procs::DynReq {
                path: procs::DynPath(vars),
                header: procs::IdHead { id: wire::token(id) },
                body: Body(body.to_vec()),
            };
            AwaitExpect {
                id,
                problem: None,
                what: format!("slot{}", w),
                seen: Some(format!("{:?}", q)),
            }
        }
    }
}
#[allow(dead_code)]
fn _ip(_: IpAddr) {}

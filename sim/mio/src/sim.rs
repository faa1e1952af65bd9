//! The simulated kernel: TCP connections, listeners, readiness, time and network faults.
//!
//! Everything here is driven by one `World`. The harness owns the event loop; this module only
//! reacts to socket calls and to `World::advance_to`.
use crate::{Event, Ready, Token};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io;
use std::net::{IpAddr, Shutdown, SocketAddr};
use std::sync::{Arc, Mutex};

pub type Nanos = u64;
pub type SockId = usize;
pub type LisId = usize;
pub type ConnId = usize;
pub type PollId = usize;
pub type ProcId = u32;
pub type WorldRef = Arc<Mutex<World>>;

pub const US: Nanos = 1_000;
pub const MS: Nanos = 1_000_000;
pub const SEC: Nanos = 1_000_000_000;

pub const ECONNREFUSED: i32 = 111;
pub const ECONNRESET: i32 = 104;
pub const ETIMEDOUT: i32 = 110;
pub const EPIPE: i32 = 32;
pub const ENOTCONN: i32 = 107;
pub const EADDRINUSE: i32 = 98;
pub const ECONNABORTED: i32 = 103;
pub const EMFILE: i32 = 24;

thread_local! {
    static CURRENT: RefCell<Option<WorldRef>> = const { RefCell::new(None) };
    /// (enabled, monotonic ns, wall-clock ns)
    static CLOCK: Cell<(bool, u64, u64)> = const { Cell::new((false, 0, 0)) };
}

/// The world of the calling thread.
pub fn current() -> WorldRef {
    CURRENT.with(|c| c.borrow().clone().expect("no simulated world on this thread"))
}
pub fn set_current(w: Option<WorldRef>) {
    CURRENT.with(|c| *c.borrow_mut() = w);
}
/// Simulated (monotonic, wall) clock of the calling thread, if it is a simulation thread.
pub fn clock() -> Option<(u64, u64)> {
    CLOCK
        .try_with(|c| c.get())
        .ok()
        .and_then(|(on, m, w)| if on { Some((m, w)) } else { None })
}
pub fn set_clock(v: Option<(u64, u64)>) {
    CLOCK.with(|c| match v {
        Some((m, w)) => c.set((true, m, w)),
        None => c.set((false, 0, 0)),
    });
}

/// Source of all decisions. After `limit` decisions it answers 0, which always means
/// "the plain thing": no delay, no cut, next thread in turn.
pub struct Chooser {
    state: u64,
    pub count: u64,
    pub limit: u64,
}
impl Chooser {
    pub fn new(seed: u64, limit: u64) -> Self {
        Chooser {
            state: seed ^ 0x9E37_79B9_7F4A_7C15,
            count: 0,
            limit,
        }
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let c = self.count;
        self.count += 1;
        let v = self.next();
        if c >= self.limit {
            0
        } else {
            (v >> 16) % n
        }
    }
    pub fn pct(&mut self, p: u32) -> bool {
        if p == 0 {
            return false;
        }
        // 0 must mean "no"
        self.choose(100) >= (100 - p.min(99)) as u64
    }
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub lat_min: Nanos,
    pub lat_max: Nanos,
    /// 0: segments as written, 1: mss-sized, 2: tiny pieces, 3: mixed
    pub seg_mode: u8,
    pub short_read_pct: u32,
    pub short_write_pct: u32,
    pub spurious_pct: u32,
    pub batch_pct: u32,
    pub cap: usize,
    pub backlog: usize,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            lat_min: 50 * US,
            lat_max: 500 * US,
            seg_mode: 0,
            short_read_pct: 0,
            short_write_pct: 0,
            spurious_pct: 0,
            batch_pct: 0,
            cap: 65536,
            backlog: 128,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AddrMode {
    Normal,
    Refuse,
    Blackhole,
    /// connect(2) itself fails with this errno
    ConnectErr(i32),
    /// extra delay on SYN
    Slow(Nanos),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CutMode {
    /// both ends get a reset; the receiver sees the bytes before the cut first
    Rst,
    /// the receiver sees an orderly end of stream, the sender a reset
    Eof,
    /// delivery of this direction pauses for the given time
    Stall(Nanos),
}

#[derive(Clone, Copy, Debug)]
pub struct Cut {
    pub dir: usize,
    pub off: u64,
    pub mode: CutMode,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Obj {
    Sock(SockId),
    Lis(LisId),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    SynSent,
    Up,
    Dead,
}

struct Sock {
    proc_: ProcId,
    conn: ConnId,
    side: usize,
    st: St,
    err: Option<i32>,
    rx: VecDeque<u8>,
    rx_fin: bool,
    rd_shut: bool,
    wr_shut: bool,
    open: bool,
    vanished: bool,
    linger0: bool,
    reg: Option<PollId>,
}

enum Item {
    Data(Vec<u8>),
    Fin,
    Rst,
    Stall(Nanos),
}

#[derive(Default)]
struct Dir {
    q: VecDeque<Item>,
    bytes: usize,
    last_at: Nanos,
    fin_sent: bool,
    cuts: Vec<Cut>,
    cut_done: bool,
}

/// What the harness can see of a connection afterwards.
#[derive(Clone, Debug, Default)]
pub struct ConnInfo {
    pub id: ConnId,
    pub client_proc: ProcId,
    pub from: Option<SocketAddr>,
    pub to: Option<SocketAddr>,
    pub dial_at: Nanos,
    pub established_at: Option<Nanos>,
    pub failed: Option<(Nanos, i32)>,
    pub accepted_at: Option<Nanos>,
    pub client_closed_at: Option<Nanos>,
    pub server_closed_at: Option<Nanos>,
    /// bytes written by client / server
    pub wrote: [Vec<u8>; 2],
    /// each write call: (time, total bytes after it, event counter)
    pub wmarks: [Vec<(Nanos, usize, u64)>; 2],
    /// each read call by the application at server (0) / client (1): (total bytes after it, event counter)
    pub rmarks: [Vec<(usize, u64)>; 2],
    /// bytes that reached the receive queue of server (0) / client (1)
    pub arrived: [usize; 2],
    /// bytes read by the application at server (0) / client (1)
    pub read: [usize; 2],
    /// (time) when the client / server side saw an end (fin or reset) in its kernel
    pub ended: [Option<Nanos>; 2],
    pub rst_seen: [bool; 2],
    /// the client application observed end-of-stream or an error on this socket
    pub app_saw_end: [Option<Nanos>; 2],
}

struct Conn {
    client: SockId,
    server: Option<SockId>,
    dirs: [Dir; 2],
    caddr: SocketAddr,
    saddr: SocketAddr,
    syn_try: u32,
    aborted: bool,
}

struct Lis {
    proc_: ProcId,
    addr: SocketAddr,
    backlog: VecDeque<SockId>,
    open: bool,
    reg: Option<PollId>,
    accepts: u64,
}

#[derive(Clone, Copy, Debug)]
struct Reg {
    token: usize,
    interest: Ready,
    armed: bool,
    spurious: bool,
}

#[derive(Default)]
struct PollSt {
    regs: BTreeMap<Obj, Reg>,
    cand: BTreeSet<Obj>,
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    Syn(ConnId),
    SynAck(ConnId),
    Refused(ConnId, i32),
    Backlog(ConnId),
    Seg(ConnId, usize),
    /// reset overtaking data, arriving at this side
    Rst(ConnId, usize),
}

pub struct World {
    pub now: Nanos,
    pub wall_off: i64,
    pub ch: Chooser,
    pub cfg: NetCfg,
    socks: Vec<Sock>,
    lis: Vec<Lis>,
    conns: Vec<Conn>,
    pub info: Vec<ConnInfo>,
    by_addr: BTreeMap<SocketAddr, LisId>,
    queue: BTreeMap<(Nanos, u64), Ev>,
    seq: u64,
    blocked: Vec<Ev>,
    polls: Vec<PollSt>,
    pub cur_proc: ProcId,
    pub proc_ip: BTreeMap<ProcId, IpAddr>,
    down_hosts: BTreeSet<IpAddr>,
    partitions: BTreeSet<(IpAddr, IpAddr)>,
    addr_mode: BTreeMap<SocketAddr, AddrMode>,
    next_port: u16,
    pub cuts: BTreeMap<usize, Vec<Cut>>,
    /// (nth accept call on addr) -> errno
    pub accept_errs: BTreeMap<(SocketAddr, u64), i32>,
    /// accept fails with EMFILE on this address until this time
    pub accept_emfile_until: BTreeMap<SocketAddr, Nanos>,
    /// the bind of this process fails with this error
    pub bind_err: Option<(ProcId, i32)>,
    pub hash: u64,
    pub events: u64,
    /// kernel calls since the harness last reset this: guards against a spinning thread
    pub step_ops: u64,
    pub lines: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
}

/// 2001-09-09, so that wall-clock jumps backwards stay positive
pub const WALL_BASE: u64 = 1_000_000_000 * SEC;

macro_rules! tr {
    ($w:expr, $($a:tt)*) => {
        if $w.lines.is_some() {
            let s = format!("{:>12.6}ms {}", $w.now as f64 / 1e6, format!($($a)*));
            $w.lines.as_mut().unwrap().push(s);
        }
    };
}

impl World {
    pub fn new(seed: u64, limit: u64, cfg: NetCfg, trace: bool) -> World {
        let w = World {
            now: SEC,
            wall_off: 0,
            ch: Chooser::new(seed, limit),
            cfg,
            socks: vec![],
            lis: vec![],
            conns: vec![],
            info: vec![],
            by_addr: BTreeMap::new(),
            queue: BTreeMap::new(),
            seq: 0,
            blocked: vec![],
            polls: vec![],
            cur_proc: 0,
            proc_ip: BTreeMap::new(),
            down_hosts: BTreeSet::new(),
            partitions: BTreeSet::new(),
            addr_mode: BTreeMap::new(),
            next_port: 40000,
            cuts: BTreeMap::new(),
            accept_errs: BTreeMap::new(),
            accept_emfile_until: BTreeMap::new(),
            bind_err: None,
            hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            step_ops: 0,
            lines: if trace { Some(vec![]) } else { None },
            faults: BTreeMap::new(),
        };
        w.publish_clock();
        w
    }
    fn publish_clock(&self) {
        let wall = (WALL_BASE as i64 + self.now as i64 + self.wall_off) as u64;
        set_clock(Some((self.now, wall)));
    }
    pub fn wall_jump(&mut self, delta: i64) {
        self.wall_off += delta;
        self.publish_clock();
        self.fault("wall_clock_jump");
        self.mix(90, delta as u64, 0);
        tr!(self, "FAULT wall clock jumps by {}s", delta as f64 / 1e9);
    }
    pub fn mix(&mut self, tag: u64, a: u64, b: u64) {
        self.events += 1;
        for v in &[tag, a, b, self.now] {
            self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01b3);
            self.hash ^= self.hash >> 29;
        }
    }
    pub fn note(&mut self, s: &str) {
        tr!(self, "{}", s);
        let mut h = 0u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.mix(99, h, 0);
    }
    /// One operation of the code under test; nothing but a busy loop needs this many in one step.
    fn tick(&mut self) {
        self.step_ops += 1;
        if self.step_ops > 1_000_000 {
            self.step_ops = 0;
            panic!("a thread spins without end");
        }
    }
    /// Cuts that have not happened yet never will.
    /// Plans a cut of the n-th connection; offsets on an existing one count from here on.
    pub fn arm_cut(&mut self, conn: usize, mut cut: Cut) {
        if conn < self.conns.len() {
            cut.off += self.info[conn].wrote[cut.dir & 1].len() as u64;
            let d = &mut self.conns[conn].dirs[cut.dir & 1];
            d.cuts.push(cut);
            d.cuts.sort_by_key(|c| c.off);
        } else {
            self.cuts.entry(conn).or_insert_with(Vec::new).push(cut);
        }
    }
    pub fn drop_cuts(&mut self) {
        self.cuts.clear();
        for c in &mut self.conns {
            for d in &mut c.dirs {
                d.cuts.clear();
            }
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }

    // ---- time ----
    pub fn next_event(&self) -> Option<Nanos> {
        self.queue.keys().next().map(|k| k.0)
    }
    pub fn advance_to(&mut self, t: Nanos) {
        while let Some((&(at, seq), _)) = self.queue.iter().next() {
            if at > t {
                break;
            }
            let ev = self.queue.remove(&(at, seq)).unwrap();
            if at > self.now {
                self.now = at;
                self.publish_clock();
            }
            self.fire(ev);
        }
        if t > self.now {
            self.now = t;
            self.publish_clock();
        }
    }
    fn push(&mut self, at: Nanos, ev: Ev) {
        self.seq += 1;
        self.queue.insert((at, self.seq), ev);
    }
    fn lat(&mut self) -> Nanos {
        let span = self.cfg.lat_max.saturating_sub(self.cfg.lat_min);
        self.cfg.lat_min
            + if span == 0 {
                0
            } else {
                self.ch.choose(32) * span / 31
            }
    }

    // ---- topology ----
    pub fn set_addr_mode(&mut self, a: SocketAddr, m: AddrMode) {
        tr!(self, "FAULT address {} mode {:?}", a, m);
        match m {
            AddrMode::Normal => {}
            AddrMode::Refuse => self.fault("connect_refused_mode"),
            AddrMode::Blackhole => self.fault("connect_blackhole_mode"),
            AddrMode::ConnectErr(_) => self.fault("connect_errno_mode"),
            AddrMode::Slow(_) => self.fault("connect_slow_mode"),
        }
        self.addr_mode.insert(a, m);
    }
    pub fn partition(&mut self, a: IpAddr, b: IpAddr, on: bool) {
        let k = if a < b { (a, b) } else { (b, a) };
        tr!(self, "FAULT partition {} {} {}", a, b, if on { "on" } else { "heal" });
        if on {
            self.fault("partition");
            self.partitions.insert(k);
        } else {
            self.partitions.remove(&k);
            self.unblock();
        }
    }
    fn unblock(&mut self) {
        let evs = std::mem::replace(&mut self.blocked, vec![]);
        for e in evs {
            let d = self.cfg.lat_min + self.ch.choose(50) * 4 * MS;
            self.push(self.now + d, e);
        }
    }
    fn is_blocked(&self, c: ConnId) -> bool {
        let (a, b) = (self.conns[c].caddr.ip(), self.conns[c].saddr.ip());
        let k = if a < b { (a, b) } else { (b, a) };
        self.partitions.contains(&k) || self.down_hosts.contains(&a) || self.down_hosts.contains(&b)
    }
    pub fn host_down(&mut self, ip: IpAddr) {
        self.down_hosts.insert(ip);
    }
    pub fn host_up(&mut self, ip: IpAddr) {
        self.down_hosts.remove(&ip);
        self.unblock();
    }
    /// The process disappears. `silent`: its host disappears with it, nobody is told.
    pub fn kill_process(&mut self, p: ProcId, silent: bool) {
        self.fault(if silent { "host_crash" } else { "process_crash" });
        tr!(self, "FAULT process {} killed{}", p, if silent { " (host)" } else { "" });
        for i in 0..self.lis.len() {
            if self.lis[i].proc_ == p && self.lis[i].open {
                if silent {
                    self.lis[i].open = false;
                    let a = self.lis[i].addr;
                    self.by_addr.remove(&a);
                    let b: Vec<_> = self.lis[i].backlog.drain(..).collect();
                    for s in b {
                        self.vanish(s);
                    }
                } else {
                    self.close_obj(Obj::Lis(i));
                }
            }
        }
        for i in 0..self.socks.len() {
            if self.socks[i].proc_ == p && self.socks[i].open {
                if silent {
                    self.vanish(i);
                } else {
                    self.close_obj(Obj::Sock(i));
                }
            }
        }
    }
    fn vanish(&mut self, s: SockId) {
        self.unregister(Obj::Sock(s));
        self.socks[s].open = false;
        self.socks[s].vanished = true;
        self.socks[s].st = St::Dead;
        self.mark_closed(s);
    }
    fn mark_closed(&mut self, s: SockId) {
        let (c, side) = (self.socks[s].conn, self.socks[s].side);
        let now = self.now;
        let inf = &mut self.info[c];
        if side == 0 {
            inf.client_closed_at.get_or_insert(now);
        } else {
            inf.server_closed_at.get_or_insert(now);
        }
    }
    /// Reset an established connection from the middle of the network.
    pub fn inject_rst(&mut self, c: ConnId) {
        if c >= self.conns.len() || self.info[c].established_at.is_none() {
            return;
        }
        self.fault("rst_injected");
        tr!(self, "FAULT rst injected on c{}", c);
        let a = self.lat();
        let b = self.lat();
        self.push(self.now + a, Ev::Rst(c, 0));
        self.push(self.now + b, Ev::Rst(c, 1));
    }

    // ---- sockets: API ----
    pub fn connect(&mut self, p: ProcId, to: SocketAddr) -> io::Result<SockId> {
        self.tick();
        let ip = self.proc_ip[&p];
        let id = self.conns.len();
        let port = self.next_port;
        self.next_port = if port == 65535 { 40000 } else { port + 1 };
        let from = SocketAddr::new(ip, port);
        let mode = self.addr_mode.get(&to).cloned().unwrap_or(AddrMode::Normal);
        let mut inf = ConnInfo {
            id,
            client_proc: p,
            from: Some(from),
            to: Some(to),
            dial_at: self.now,
            ..Default::default()
        };
        self.mix(1, id as u64, p as u64);
        tr!(self, "p{} dial c{} {} -> {}", p, id, from, to);
        let sid = self.socks.len();
        let immediate = if let AddrMode::ConnectErr(e) = mode {
            self.fault("connect_errno");
            inf.failed = Some((self.now, e));
            inf.client_closed_at = Some(self.now);
            Some(e)
        } else {
            None
        };
        self.info.push(inf);
        self.socks.push(Sock {
            proc_: p,
            conn: id,
            side: 0,
            st: if immediate.is_some() { St::Dead } else { St::SynSent },
            err: None,
            rx: VecDeque::new(),
            rx_fin: false,
            rd_shut: false,
            wr_shut: false,
            open: immediate.is_none(),
            vanished: false,
            linger0: false,
            reg: None,
        });
        let mut dirs: [Dir; 2] = Default::default();
        if let Some(cs) = self.cuts.get(&id) {
            for c in cs {
                dirs[c.dir & 1].cuts.push(*c);
            }
            for d in &mut dirs {
                d.cuts.sort_by_key(|c| c.off);
            }
        }
        self.conns.push(Conn {
            client: sid,
            server: None,
            dirs,
            caddr: from,
            saddr: to,
            syn_try: 0,
            aborted: false,
        });
        if let Some(e) = immediate {
            return Err(io::Error::from_raw_os_error(e));
        }
        let mut d = self.lat();
        if let AddrMode::Slow(x) = mode {
            self.fault("connect_slow");
            d += x;
        }
        self.push(self.now + d, Ev::Syn(id));
        Ok(sid)
    }
    pub fn listen(&mut self, p: ProcId, addr: SocketAddr) -> io::Result<LisId> {
        let mut addr = addr;
        if addr.port() == 0 {
            addr.set_port(self.next_port);
            self.next_port += 1;
        }
        if let Some((_, e)) = self.bind_err.filter(|b| b.0 == p) {
            self.fault("bind_errno");
            tr!(self, "FAULT p{} bind {} fails: errno {}", p, addr, e);
            return Err(io::Error::from_raw_os_error(e));
        }
        if self.by_addr.contains_key(&addr) {
            self.fault("bind_in_use");
            tr!(self, "p{} bind {} fails: in use", p, addr);
            return Err(io::Error::from_raw_os_error(EADDRINUSE));
        }
        let id = self.lis.len();
        self.lis.push(Lis {
            proc_: p,
            addr,
            backlog: VecDeque::new(),
            open: true,
            reg: None,
            accepts: 0,
        });
        self.by_addr.insert(addr, id);
        self.mix(2, id as u64, p as u64);
        tr!(self, "p{} listen {}", p, addr);
        Ok(id)
    }
    pub fn lis_addr(&self, l: LisId) -> SocketAddr {
        self.lis[l].addr
    }
    pub fn is_listening(&self, a: SocketAddr) -> bool {
        self.by_addr.contains_key(&a)
    }
    pub fn accept(&mut self, l: LisId) -> io::Result<(SockId, SocketAddr)> {
        self.tick();
        if !self.lis[l].open {
            return Err(io::Error::from_raw_os_error(22));
        }
        if self.lis[l].backlog.is_empty() {
            return Err(crate::would_block());
        }
        let addr = self.lis[l].addr;
        if let Some(&t) = self.accept_emfile_until.get(&addr) {
            if self.now < t {
                self.fault("accept_emfile");
                self.mix(3, EMFILE as u64, l as u64);
                tr!(self, "FAULT accept on {} fails: EMFILE", addr);
                return Err(io::Error::from_raw_os_error(EMFILE));
            }
        }
        let n = self.lis[l].accepts;
        self.lis[l].accepts += 1;
        if let Some(&e) = self.accept_errs.get(&(addr, n)) {
            self.fault(if e == ECONNABORTED { "accept_econnaborted" } else { "accept_errno" });
            self.mix(3, e as u64, l as u64);
            tr!(self, "FAULT accept on {} fails: errno {}", addr, e);
            // (the connection it stands for was another client's, which is gone already; the ones
            // in the queue are still there)
            return Err(io::Error::from_raw_os_error(e));
        }
        let s = self.lis[l].backlog.pop_front().unwrap();
        let c = self.socks[s].conn;
        self.info[c].accepted_at = Some(self.now);
        self.mix(4, c as u64, l as u64);
        tr!(self, "p{} accept c{}", self.lis[l].proc_, c);
        Ok((s, self.conns[c].caddr))
    }
    pub fn peer_addr(&self, s: SockId) -> io::Result<SocketAddr> {
        let k = &self.socks[s];
        if k.st != St::Up {
            return Err(io::Error::from_raw_os_error(ENOTCONN));
        }
        let c = &self.conns[k.conn];
        Ok(if k.side == 0 { c.saddr } else { c.caddr })
    }
    pub fn local_addr(&self, s: SockId) -> io::Result<SocketAddr> {
        let k = &self.socks[s];
        let c = &self.conns[k.conn];
        Ok(if k.side == 0 { c.caddr } else { c.saddr })
    }
    pub fn conn_of(&self, s: SockId) -> ConnId {
        self.socks[s].conn
    }
    pub fn set_linger(&mut self, s: SockId, zero: bool) {
        self.socks[s].linger0 = zero;
    }
    pub fn take_error(&mut self, s: SockId) -> Option<io::Error> {
        self.socks[s].err.take().map(io::Error::from_raw_os_error)
    }
    fn saw_end(&mut self, s: SockId) {
        let (c, side) = (self.socks[s].conn, self.socks[s].side);
        let now = self.now;
        self.info[c].app_saw_end[side].get_or_insert(now);
    }
    pub fn peek(&mut self, s: SockId, buf: &mut [u8]) -> io::Result<usize> {
        let k = &self.socks[s];
        if !k.rx.is_empty() {
            let n = buf.len().min(k.rx.len());
            for (i, b) in k.rx.iter().take(n).enumerate() {
                buf[i] = *b;
            }
            return Ok(n);
        }
        self.read(s, &mut [])
    }
    pub fn read(&mut self, s: SockId, buf: &mut [u8]) -> io::Result<usize> {
        self.tick();
        if self.socks[s].st == St::SynSent {
            return Err(crate::would_block());
        }
        if self.socks[s].rd_shut {
            return Ok(0);
        }
        if buf.is_empty() && !self.socks[s].rx.is_empty() {
            return Ok(0);
        }
        if !self.socks[s].rx.is_empty() {
            let mut n = buf.len().min(self.socks[s].rx.len());
            if n > 1 && self.cfg.short_read_pct > 0 && self.ch.pct(self.cfg.short_read_pct) {
                self.fault("short_read");
                n = 1 + self.ch.choose((n as u64).min(64)) as usize;
                n = n.min(buf.len()).min(self.socks[s].rx.len());
            }
            for (i, b) in self.socks[s].rx.drain(..n).enumerate() {
                buf[i] = b;
            }
            let (c, side) = (self.socks[s].conn, self.socks[s].side);
            self.info[c].read[1 - side] += n;
            self.mix(5, s as u64, n as u64);
            let (ev, tot) = (self.events, self.info[c].read[1 - side]);
            self.info[c].rmarks[1 - side].push((tot, ev));
            // the sender may have space again
            if let Some(p) = self.peer(s) {
                self.touch(Obj::Sock(p));
            }
            return Ok(n);
        }
        if let Some(e) = self.socks[s].err.take() {
            self.saw_end(s);
            self.mix(6, s as u64, e as u64);
            return Err(io::Error::from_raw_os_error(e));
        }
        if self.socks[s].rx_fin || self.socks[s].st == St::Dead {
            self.saw_end(s);
            self.mix(6, s as u64, 0);
            return Ok(0);
        }
        Err(crate::would_block())
    }
    fn peer(&self, s: SockId) -> Option<SockId> {
        let k = &self.socks[s];
        if k.side == 0 {
            self.conns[k.conn].server
        } else {
            Some(self.conns[k.conn].client)
        }
    }
    fn space(&self, s: SockId) -> usize {
        let k = &self.socks[s];
        let used = self.conns[k.conn].dirs[k.side].bytes
            + self.peer(s).map_or(0, |p| self.socks[p].rx.len());
        self.cfg.cap.saturating_sub(used)
    }
    pub fn write(&mut self, s: SockId, buf: &[u8]) -> io::Result<usize> {
        self.tick();
        if self.socks[s].st == St::SynSent {
            return Err(crate::would_block());
        }
        if let Some(e) = self.socks[s].err.take() {
            self.saw_end(s);
            return Err(io::Error::from_raw_os_error(e));
        }
        if self.socks[s].st == St::Dead || self.socks[s].wr_shut {
            self.saw_end(s);
            return Err(io::Error::from_raw_os_error(EPIPE));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let space = self.space(s);
        if space == 0 {
            return Err(crate::would_block());
        }
        let mut n = buf.len().min(space);
        let (c, side) = (self.socks[s].conn, self.socks[s].side);
        let idle = space == self.cfg.cap;
        // A small write into an empty socket buffer is always taken whole (as Linux does).
        if !(idle && buf.len() <= 8192)
            && n > 1
            && self.cfg.short_write_pct > 0
            && self.ch.pct(self.cfg.short_write_pct)
        {
            self.fault("short_write");
            n = 1 + self.ch.choose(n as u64) as usize;
            n = n.min(buf.len()).min(space);
        }
        let data = &buf[..n];
        self.info[c].wrote[side].extend_from_slice(data);
        let (now, tot) = (self.now, self.info[c].wrote[side].len());
        self.mix(7, s as u64, n as u64);
        let ev = self.events;
        self.info[c].wmarks[side].push((now, tot, ev));
        tr!(self, "c{} {} writes {} bytes", c, ["client", "server"][side], n);
        self.transmit(c, side, data);
        Ok(n)
    }
    /// Puts bytes on the wire, applying cuts.
    fn transmit(&mut self, c: ConnId, dir: usize, data: &[u8]) {
        if self.conns[c].dirs[dir].cut_done {
            return; // goes nowhere
        }
        let start = self.info[c].wrote[dir].len() - data.len();
        let mut pos = 0;
        loop {
            let cut = self.conns[c].dirs[dir].cuts.first().cloned();
            match cut {
                Some(k) if (k.off as usize) < start + data.len() => {
                    let upto = (k.off as usize).saturating_sub(start).max(pos);
                    let part = data[pos..upto].to_vec();
                    pos = upto;
                    self.segments(c, dir, &part);
                    self.conns[c].dirs[dir].cuts.remove(0);
                    match k.mode {
                        CutMode::Stall(d) => {
                            self.fault("stall");
                            self.enqueue(c, dir, Item::Stall(d));
                        }
                        CutMode::Rst => {
                            self.fault("cut_rst");
                            self.conns[c].dirs[dir].cut_done = true;
                            self.enqueue(c, dir, Item::Rst);
                            let d = self.lat();
                            self.push(self.now + d, Ev::Rst(c, dir));
                            tr!(self, "FAULT c{} dir{} reset at byte {}", c, dir, k.off);
                            return;
                        }
                        CutMode::Eof => {
                            self.fault("cut_eof");
                            self.conns[c].dirs[dir].cut_done = true;
                            self.enqueue(c, dir, Item::Fin);
                            let d = self.lat() + self.lat();
                            self.push(self.now + d, Ev::Rst(c, dir));
                            tr!(self, "FAULT c{} dir{} end of stream at byte {}", c, dir, k.off);
                            return;
                        }
                    }
                }
                _ => break,
            }
        }
        let rest = data[pos..].to_vec();
        self.segments(c, dir, &rest);
    }
    fn segments(&mut self, c: ConnId, dir: usize, data: &[u8]) {
        let mut rest = data;
        let mut tiny = 0;
        while !rest.is_empty() {
            let n = match self.cfg.seg_mode {
                0 => rest.len().min(16384),
                1 => rest.len().min(1460),
                2 => {
                    if tiny < 10 {
                        tiny += 1;
                        1 + self.ch.choose(40) as usize
                    } else {
                        1460
                    }
                }
                _ => match self.ch.choose(4) {
                    0 => rest.len().min(16384),
                    1 => 1460,
                    2 => 1 + self.ch.choose(200) as usize,
                    _ => 1 + self.ch.choose(8) as usize,
                },
            };
            let n = n.min(rest.len());
            let n = if tiny > 64 { rest.len() } else { n };
            tiny += 1;
            self.enqueue(c, dir, Item::Data(rest[..n].to_vec()));
            rest = &rest[n..];
        }
    }
    fn enqueue(&mut self, c: ConnId, dir: usize, it: Item) {
        if let Item::Data(ref d) = it {
            self.conns[c].dirs[dir].bytes += d.len();
        }
        let extra = if let Item::Stall(d) = it { d } else { 0 };
        let l = self.lat();
        let d = &mut self.conns[c].dirs[dir];
        let at = (self.now + l).max(d.last_at) + extra;
        d.last_at = at;
        d.q.push_back(it);
        self.push(at, Ev::Seg(c, dir));
    }
    pub fn shutdown(&mut self, s: SockId, how: Shutdown) -> io::Result<()> {
        if self.socks[s].st != St::Up {
            return Err(io::Error::from_raw_os_error(ENOTCONN));
        }
        if how != Shutdown::Write {
            self.socks[s].rd_shut = true;
        }
        if how != Shutdown::Read && !self.socks[s].wr_shut {
            self.socks[s].wr_shut = true;
            self.send_fin(s);
        }
        self.touch(Obj::Sock(s));
        Ok(())
    }
    fn send_fin(&mut self, s: SockId) {
        let (c, side) = (self.socks[s].conn, self.socks[s].side);
        let d = &mut self.conns[c].dirs[side];
        if !d.fin_sent && !d.cut_done {
            d.fin_sent = true;
            self.enqueue(c, side, Item::Fin);
        }
    }
    /// Close with reset.
    pub fn abort(&mut self, s: SockId) {
        if self.socks[s].st == St::Up {
            let (c, side) = (self.socks[s].conn, self.socks[s].side);
            let d = &mut self.conns[c].dirs[side];
            if !d.cut_done {
                d.cut_done = true;
                if self.ch.choose(2) == 0 {
                    self.enqueue(c, side, Item::Rst);
                } else {
                    let l = self.lat();
                    self.push(self.now + l, Ev::Rst(c, 1 - side));
                }
            }
        }
        self.socks[s].st = St::Dead;
    }
    pub fn close_obj(&mut self, o: Obj) {
        match o {
            Obj::Sock(s) => {
                if !self.socks[s].open {
                    return;
                }
                self.unregister(o);
                self.socks[s].open = false;
                self.mark_closed(s);
                let c = self.socks[s].conn;
                self.mix(8, s as u64, 0);
                tr!(self, "c{} {} closes", c, ["client", "server"][self.socks[s].side]);
                match self.socks[s].st {
                    St::SynSent => {
                        self.conns[c].aborted = true;
                        self.socks[s].st = St::Dead;
                    }
                    St::Up => {
                        if !self.socks[s].rx.is_empty() || self.socks[s].linger0 {
                            self.socks[s].rx.clear();
                            self.abort(s);
                        } else {
                            self.send_fin(s);
                            // keeps transmitting; receives answered by reset
                        }
                    }
                    St::Dead => {}
                }
            }
            Obj::Lis(l) => {
                if !self.lis[l].open {
                    return;
                }
                self.unregister(o);
                self.lis[l].open = false;
                let a = self.lis[l].addr;
                self.by_addr.remove(&a);
                self.mix(9, l as u64, 0);
                tr!(self, "listener {} closed", a);
                let b: Vec<_> = self.lis[l].backlog.drain(..).collect();
                for s in b {
                    self.abort(s);
                    self.socks[s].open = false;
                    self.mark_closed(s);
                }
            }
        }
    }

    // ---- events ----
    fn fire(&mut self, ev: Ev) {
        match ev {
            Ev::Syn(c) => {
                if self.conns[c].aborted {
                    return;
                }
                let to = self.conns[c].saddr;
                let mode = self.addr_mode.get(&to).cloned().unwrap_or(AddrMode::Normal);
                let l = self.by_addr.get(&to).cloned();
                let full = l.map_or(false, |l| self.lis[l].backlog.len() >= self.cfg.backlog);
                if self.is_blocked(c) || mode == AddrMode::Blackhole || full {
                    self.fault("syn_dropped");
                    tr!(self, "FAULT syn of c{} dropped", c);
                    let n = self.conns[c].syn_try;
                    self.conns[c].syn_try += 1;
                    if n >= 6 {
                        self.push(self.now, Ev::Refused(c, ETIMEDOUT));
                    } else {
                        self.push(self.now + (SEC << n), Ev::Syn(c));
                    }
                    return;
                }
                if mode == AddrMode::Refuse || l.is_none() {
                    let d = self.lat();
                    self.push(self.now + d, Ev::Refused(c, ECONNREFUSED));
                    return;
                }
                if self.conns[c].server.is_none() {
                    let sid = self.socks.len();
                    self.socks.push(Sock {
                        proc_: self.lis[l.unwrap()].proc_,
                        conn: c,
                        side: 1,
                        st: St::Up,
                        err: None,
                        rx: VecDeque::new(),
                        rx_fin: false,
                        rd_shut: false,
                        wr_shut: false,
                        open: true,
                        vanished: false,
                        linger0: false,
                        reg: None,
                    });
                    self.conns[c].server = Some(sid);
                }
                let d = self.lat();
                self.push(self.now + d, Ev::SynAck(c));
            }
            Ev::SynAck(c) => {
                if self.is_blocked(c) {
                    self.blocked.push(ev);
                    return;
                }
                let s = self.conns[c].client;
                if self.conns[c].aborted || self.socks[s].st != St::SynSent {
                    // the client is gone: reset the half-open server side
                    let d = self.lat();
                    self.push(self.now + d, Ev::Rst(c, 1));
                    return;
                }
                self.socks[s].st = St::Up;
                self.info[c].established_at = Some(self.now);
                self.mix(10, c as u64, 0);
                tr!(self, "c{} established", c);
                self.touch(Obj::Sock(s));
                let d = self.lat();
                let at = self.now + d;
                self.conns[c].dirs[0].last_at = at;
                self.push(at, Ev::Backlog(c));
            }
            Ev::Backlog(c) => {
                if self.is_blocked(c) {
                    self.blocked.push(ev);
                    return;
                }
                let to = self.conns[c].saddr;
                let s = self.conns[c].server.unwrap();
                if self.socks[s].st == St::Dead || !self.socks[s].open {
                    return;
                }
                match self.by_addr.get(&to).cloned() {
                    Some(l) if self.lis[l].proc_ == self.socks[s].proc_ => {
                        self.lis[l].backlog.push_back(s);
                        self.mix(11, c as u64, 0);
                        self.touch(Obj::Lis(l));
                    }
                    _ => {
                        self.abort(s);
                        self.socks[s].open = false;
                        self.mark_closed(s);
                    }
                }
            }
            Ev::Refused(c, e) => {
                let s = self.conns[c].client;
                if self.socks[s].st == St::SynSent {
                    if e == ECONNREFUSED {
                        self.fault("connect_refused");
                    } else {
                        self.fault("connect_kernel_timeout");
                    }
                    self.socks[s].st = St::Dead;
                    self.socks[s].err = Some(e);
                    self.info[c].failed = Some((self.now, e));
                    self.mix(12, c as u64, e as u64);
                    tr!(self, "c{} connect fails errno {}", c, e);
                    self.touch(Obj::Sock(s));
                }
            }
            Ev::Seg(c, dir) => {
                if self.is_blocked(c) {
                    self.blocked.push(ev);
                    return;
                }
                let it = match self.conns[c].dirs[dir].q.pop_front() {
                    Some(i) => i,
                    None => return,
                };
                let target = if dir == 0 {
                    self.conns[c].server
                } else {
                    Some(self.conns[c].client)
                };
                let t = match target {
                    Some(t) => t,
                    None => return,
                };
                match it {
                    Item::Stall(_) => {}
                    Item::Data(d) => {
                        self.conns[c].dirs[dir].bytes -= d.len();
                        if self.socks[t].st == St::Dead || !self.socks[t].open {
                            // nobody there: reset to the sender
                            let l = self.lat();
                            self.push(self.now + l, Ev::Rst(c, dir));
                            if self.socks[t].st == St::Up {
                                self.socks[t].st = St::Dead;
                                self.conns[c].dirs[1 - dir].cut_done = true;
                            }
                            return;
                        }
                        self.mix(13, t as u64, d.len() as u64);
                        tr!(self, "c{} dir{} +{} bytes arrive", c, dir, d.len());
                        self.info[c].arrived[dir] += d.len();
                        self.socks[t].rx.extend(d);
                        self.touch(Obj::Sock(t));
                        self.maybe_spurious();
                    }
                    Item::Fin => {
                        if self.socks[t].st == St::Dead {
                            return;
                        }
                        self.socks[t].rx_fin = true;
                        self.info[c].ended[1 - dir].get_or_insert(self.now);
                        self.mix(14, t as u64, 0);
                        tr!(self, "c{} dir{} end of stream arrives", c, dir);
                        self.touch(Obj::Sock(t));
                    }
                    Item::Rst => self.reset(c, 1 - dir),
                }
            }
            Ev::Rst(c, side) => {
                if self.is_blocked(c) {
                    self.blocked.push(ev);
                    return;
                }
                // data still in flight towards `side` is lost
                let d = &mut self.conns[c].dirs[1 - side];
                d.q.clear();
                d.bytes = 0;
                d.cut_done = true;
                self.reset(c, side);
            }
        }
    }
    fn reset(&mut self, c: ConnId, side: usize) {
        let t = if side == 0 {
            Some(self.conns[c].client)
        } else {
            self.conns[c].server
        };
        let t = match t {
            Some(t) => t,
            None => return,
        };
        // whatever this side still had in flight is dropped
        let d = &mut self.conns[c].dirs[side];
        d.cut_done = true;
        if self.socks[t].st == St::Dead {
            return;
        }
        let was_syn = self.socks[t].st == St::SynSent;
        self.socks[t].st = St::Dead;
        self.mix(15, t as u64, side as u64);
        tr!(self, "c{} {} receives reset", c, ["client", "server"][side]);
        self.info[c].rst_seen[side] = true;
        self.info[c].ended[side].get_or_insert(self.now);
        if self.socks[t].open {
            self.socks[t].err = Some(if was_syn { ECONNREFUSED } else { ECONNRESET });
            // a queued FIN was already processed: Linux reports EPIPE for writes, reads see EOF
            if self.socks[t].rx_fin {
                self.socks[t].err = Some(EPIPE);
            }
            self.touch(Obj::Sock(t));
        }
    }
    fn maybe_spurious(&mut self) {
        if self.cfg.spurious_pct == 0 || !self.ch.pct(self.cfg.spurious_pct) {
            return;
        }
        let mut c: Vec<(PollId, Obj)> = vec![];
        for (p, ps) in self.polls.iter().enumerate() {
            for (o, r) in &ps.regs {
                if r.armed && r.interest.is_readable() {
                    let ok = match *o {
                        Obj::Sock(s) => self.socks[s].st == St::Up,
                        Obj::Lis(_) => true,
                    };
                    if ok {
                        c.push((p, *o));
                    }
                }
            }
        }
        if c.is_empty() {
            return;
        }
        let (p, o) = c[self.ch.choose(c.len() as u64) as usize];
        self.fault("spurious_readiness");
        self.polls[p].regs.get_mut(&o).unwrap().spurious = true;
        self.polls[p].cand.insert(o);
    }

    // ---- readiness ----
    fn readiness(&self, o: Obj) -> Ready {
        match o {
            Obj::Lis(l) => {
                if self.lis[l].backlog.is_empty() {
                    Ready::empty()
                } else {
                    Ready::readable()
                }
            }
            Obj::Sock(s) => {
                let k = &self.socks[s];
                let mut r = Ready::empty();
                match k.st {
                    St::SynSent => {}
                    St::Dead => r = Ready::all(),
                    St::Up => {
                        if !k.rx.is_empty() || k.rx_fin || k.err.is_some() || k.rd_shut {
                            r |= Ready::readable();
                        }
                        if k.err.is_some() || k.wr_shut || self.space(s) * 3 >= self.cfg.cap {
                            r |= Ready::writable();
                        }
                    }
                }
                r
            }
        }
    }
    fn reg_slot(&mut self, o: Obj) -> &mut Option<PollId> {
        match o {
            Obj::Sock(s) => &mut self.socks[s].reg,
            Obj::Lis(l) => &mut self.lis[l].reg,
        }
    }
    fn touch(&mut self, o: Obj) {
        if let Some(p) = *self.reg_slot(o) {
            self.polls[p].cand.insert(o);
        }
    }
    pub fn poll_new(&mut self) -> PollId {
        self.polls.push(PollSt::default());
        self.polls.len() - 1
    }
    pub fn poll_register(&mut self, p: PollId, o: Obj, token: usize, i: Ready) -> io::Result<()> {
        let open = match o {
            Obj::Sock(s) => self.socks[s].open,
            Obj::Lis(l) => self.lis[l].open,
        };
        if !open {
            return Err(io::Error::from_raw_os_error(9));
        }
        *self.reg_slot(o) = Some(p);
        self.polls[p].regs.insert(
            o,
            Reg {
                token,
                interest: i,
                armed: true,
                spurious: false,
            },
        );
        self.polls[p].cand.insert(o);
        Ok(())
    }
    pub fn poll_deregister(&mut self, p: PollId, o: Obj) -> io::Result<()> {
        self.polls[p].regs.remove(&o);
        self.polls[p].cand.remove(&o);
        *self.reg_slot(o) = None;
        Ok(())
    }
    fn unregister(&mut self, o: Obj) {
        if let Some(p) = self.reg_slot(o).take() {
            self.polls[p].regs.remove(&o);
            self.polls[p].cand.remove(&o);
        }
    }
    fn ready_now(&self, p: PollId, o: Obj) -> Option<Event> {
        let r = self.polls[p].regs.get(&o)?;
        if !r.armed {
            return None;
        }
        let mut k = self.readiness(o);
        if r.spurious {
            k |= Ready::readable();
        }
        let k = k & r.interest;
        if k.is_empty() {
            None
        } else {
            Some(Event::new(k, Token(r.token)))
        }
    }
    pub fn poll_has_events(&mut self, p: PollId) -> bool {
        loop {
            let o = match self.polls[p].cand.iter().next() {
                Some(o) => *o,
                None => return false,
            };
            if self.ready_now(p, o).is_some() {
                return true;
            }
            self.polls[p].cand.remove(&o);
        }
    }
    pub fn poll_wait(&mut self, p: PollId, out: &mut Vec<Event>, cap: usize) {
        let cand: Vec<Obj> = self.polls[p].cand.iter().cloned().collect();
        let mut evs: Vec<(Obj, Event)> = vec![];
        for o in cand {
            match self.ready_now(p, o) {
                Some(e) => evs.push((o, e)),
                None => {
                    self.polls[p].cand.remove(&o);
                }
            }
        }
        if evs.len() > 1 && self.cfg.batch_pct > 0 {
            let k = self.ch.choose(evs.len() as u64) as usize;
            evs.rotate_left(k);
            if self.ch.pct(self.cfg.batch_pct) {
                let keep = 1 + self.ch.choose(evs.len() as u64) as usize;
                evs.truncate(keep);
            }
        }
        evs.truncate(cap);
        for (o, e) in evs {
            let r = self.polls[p].regs.get_mut(&o).unwrap();
            r.armed = false; // one-shot
            r.spurious = false;
            self.polls[p].cand.remove(&o);
            out.push(e);
        }
        let n = out.len() as u64;
        self.mix(16, p as u64, n);
    }

    // ---- harness views ----
    pub fn conn_count(&self) -> usize {
        self.info.len()
    }
    /// Connections dialled by `p` whose client socket is still open.
    pub fn open_client_conns(&self, p: ProcId) -> Vec<ConnId> {
        (0..self.info.len())
            .filter(|&c| self.info[c].client_proc == p && self.info[c].client_closed_at.is_none())
            .collect()
    }
    /// Accepted connections whose client has closed, whose end the server's kernel has seen, and
    /// whose server socket is open nevertheless.
    pub fn unreleased_server_conns(&self) -> Vec<ConnId> {
        (0..self.info.len())
            .filter(|&c| {
                let i = &self.info[c];
                i.accepted_at.is_some()
                    && i.client_closed_at.is_some()
                    && i.ended[1].is_some()
                    && i.server_closed_at.is_none()
            })
            .collect()
    }
    pub fn sock_readable(&self, s: SockId) -> bool {
        self.readiness(Obj::Sock(s)).is_readable()
    }
    pub fn sock_writable(&self, s: SockId) -> bool {
        self.readiness(Obj::Sock(s)).is_writable()
    }
    pub fn sock_connecting(&self, s: SockId) -> bool {
        self.socks[s].st == St::SynSent
    }
    pub fn lis_readable(&self, l: LisId) -> bool {
        !self.lis[l].backlog.is_empty()
    }
    pub fn net_idle(&self) -> bool {
        self.queue.is_empty()
    }
}

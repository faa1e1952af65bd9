//! The plan of one simulated run: topology, workload, faults. Together with the seed and the
//! decision limit it determines the execution completely.
use crate::procs::Kind;
use serde_derive::{Deserialize, Serialize};
use std::net::SocketAddr;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub family: String,
    pub seed: u64,
    /// decisions of the simulator after this many are all "plain"
    pub limit: u64,
    pub net: NetPlan,
    pub sched: SchedPlan,
    pub servers: Vec<ServerPlan>,
    pub raws: Vec<RawServerPlan>,
    pub clients: Vec<ClientPlan>,
    /// server schedulers run on OS threads of their own, under a baton
    #[serde(default)]
    pub os_threads: bool,
    #[serde(default)]
    pub table: Vec<Route>,
    pub phases: Vec<PhasePlan>,
    #[serde(default)]
    pub cuts: Vec<CutPlan>,
    #[serde(default)]
    pub accept_errs: Vec<AcceptErr>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetPlan {
    pub lat_min_us: u64,
    pub lat_max_us: u64,
    pub seg_mode: u8,
    pub short_read_pct: u32,
    pub short_write_pct: u32,
    pub spurious_pct: u32,
    pub batch_pct: u32,
    pub cap: usize,
    pub backlog: usize,
}
impl NetPlan {
    pub fn plain() -> NetPlan {
        NetPlan {
            lat_min_us: 50,
            lat_max_us: 300,
            seg_mode: 0,
            short_read_pct: 0,
            short_write_pct: 0,
            spurious_pct: 0,
            batch_pct: 0,
            cap: 65536,
            backlog: 1024,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedPlan {
    /// 0 round robin, 1 uniform, 2 priorities with change points, 3 sticky,
    /// 4 pollers starved, 5 schedulers starved
    pub policy: u8,
    pub step_ns: u64,
    /// chance (percent) to let the network advance while threads are runnable
    pub net_pct: u32,
    pub max_steps: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ServerPlan {
    pub addr: SocketAddr,
    pub threads: usize,
    pub pollers: usize,
    /// serve the routing table instead of the standard procedures
    pub routed: bool,
    /// with a logger that formats everything
    #[serde(default)]
    pub logger: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClientPlan {
    pub threads: usize,
    pub pollers: usize,
    pub pool: Option<PoolPlan>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoolPlan {
    /// None: the default constructor
    pub size: Option<usize>,
    pub suspend_ms: Option<u64>,
    pub timeout_ms: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Route {
    pub method: String,
    /// None is a variable
    pub segs: Vec<Option<String>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawServerPlan {
    pub addr: SocketAddr,
    /// behaviour for the n-th accepted connection (the last one repeats)
    pub conns: Vec<RawConnPlan>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawConnPlan {
    /// one reaction per request received on the connection
    pub replies: Vec<Reply>,
    /// reads nothing
    #[serde(default)]
    pub deaf: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reply {
    /// wait for a complete request first
    pub wait_request: bool,
    pub bytes: Blob,
    pub chunk: usize,
    pub gap_us: u64,
    pub then: Then,
    pub hold_us: u64,
    /// before the first byte
    #[serde(default)]
    pub delay_us: u64,
    #[serde(default)]
    pub verdict: Verdict,
}
/// What a raw server's reply has to mean to the caller.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Verdict {
    /// success or error
    #[default]
    Any,
    /// success with this value
    Value(String),
    /// error, or success with this value
    ValueOrErr(String),
    Err,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Then {
    Keep,
    Close,
    Rst,
    HalfClose,
}

/// Bytes, shown in JSON as a string of code points 0..255.
#[derive(Clone, PartialEq)]
pub struct Blob(pub Vec<u8>);
impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0[..self.0.len().min(200)]))
    }
}
impl serde::Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t: String = self.0.iter().map(|&b| b as char).collect();
        s.serialize_str(&t)
    }
}
impl<'de> serde::Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        Ok(Blob(s.chars().map(|c| c as u32 as u8).collect()))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PhasePlan {
    pub name: String,
    pub tasks: Vec<TaskPlan>,
    pub faults: Vec<FaultPlan>,
    /// no faults are active in this phase: representable calls have to succeed
    pub healthy: bool,
    /// faults are over, but idle pooled connections may be stale
    #[serde(default)]
    pub recover: bool,
    pub max_ms: u64,
    /// a successful call takes at most its handler's delay plus this (0: default)
    #[serde(default)]
    pub bound_ms: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TaskPlan {
    Session { client: usize, ops: Vec<OpPlan> },
    Raw { good: bool, ops: Vec<RawOp> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OpPlan {
    Call(CallPlan),
    Sleep { us: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CallPlan {
    pub id: u64,
    pub to: SocketAddr,
    pub kind: Kind,
    pub level: u8,
    pub pooled: bool,
    /// handler delay
    #[serde(default)]
    pub delay_us: u64,
    #[serde(default)]
    pub cancel_us: Option<u64>,
    #[serde(default)]
    pub cancel_polls: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RawOp {
    Connect { to: SocketAddr },
    Send { bytes: Blob, chunk: usize, gap_us: u64 },
    /// wait for one complete response (or the end of the connection); `head`: answer to HEAD
    Await { head: bool, max_us: u64, #[serde(default)] expect: Option<AwaitExpect> },
    Sleep { us: u64 },
    ShutdownWrite,
    Close,
    Reset,
}
/// What a raw request has to result in.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AwaitExpect {
    pub id: u64,
    /// Some: a problem response with this status and no handler; None: the handler named `what`
    pub problem: Option<u16>,
    pub what: String,
    /// what the handler has to see
    pub seen: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultPlan {
    pub at_us: u64,
    pub f: Fault,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Rst { conn: usize },
    KillServer { server: usize, silent: bool },
    StartServer { server: usize },
    Partition { a: std::net::IpAddr, b: std::net::IpAddr, on: bool },
    Pause { client: bool, idx: usize, us: u64 },
    WallJump { secs: i64 },
    Refuse { addr: SocketAddr },
    Blackhole { addr: SocketAddr },
    ConnectErr { addr: SocketAddr, errno: i32 },
    Slow { addr: SocketAddr, us: u64 },
    Normal { addr: SocketAddr },
    AcceptEmfile { addr: SocketAddr, us: u64 },
    DropPool { client: usize },
    /// the server's future is dropped; its process lives on
    StopServer { server: usize },
    /// a second server for the same address is started (None: it is in use; Some: bind fails)
    RivalServer { server: usize, errno: Option<i32> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutPlan {
    /// index of the dial in the run
    pub conn: usize,
    pub dir: usize,
    pub off: u64,
    /// 0 reset, 1 end of stream, 2 stall
    pub mode: u8,
    pub us: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AcceptErr {
    pub addr: SocketAddr,
    pub nth: u64,
    pub errno: i32,
}

thread_local!(static IPV6: std::cell::Cell<bool> = std::cell::Cell::new(false));
/// Whether the plan that is made next uses addresses of IPv6.
pub fn set_ipv6(v6: bool) {
    IPV6.with(|c| c.set(v6));
}
fn host(net: u8, i: usize) -> std::net::IpAddr {
    if IPV6.with(|c| c.get()) {
        std::net::Ipv6Addr::new(0xfd00, 0, 0, net as u16, 0, 0, 0, i as u16 + 1).into()
    } else {
        [10, 0, net, i as u8 + 1].into()
    }
}
pub fn srv_addr(i: usize) -> SocketAddr {
    SocketAddr::new(host(0, i), 8000)
}
pub fn raw_addr(i: usize) -> SocketAddr {
    SocketAddr::new(host(2, i), 8000)
}
pub fn dead_addr(i: usize) -> SocketAddr {
    SocketAddr::new(host(3, i), 8000)
}
pub fn client_ip(i: usize) -> std::net::IpAddr {
    [10, 0, 1, i as u8 + 1].into()
}

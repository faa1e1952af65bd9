//! The recorded history of one run, reachable from handlers and calls of the running thread.
use crate::plan::*;
use crate::procs::Kind;
use mio::sim::{Nanos, WorldRef};
use std::cell::RefCell;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(String),
    Err(String),
    Cancelled,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// the handler's own response
    Handler,
    /// a problem response with this status, and no handler invocation
    Problem(u16),
    /// handler's response if it fits the narrower type, otherwise an error
    Narrow,
}
#[derive(Clone, Debug)]
pub struct CallRec {
    pub id: u64,
    pub client: usize,
    pub to: SocketAddr,
    pub kind: Kind,
    pub pooled: bool,
    pub phase: usize,
    pub task: usize,
    pub req: String,
    /// request and response are representable
    pub must: bool,
    pub expect: Expect,
    pub delay_us: u64,
    pub start: Nanos,
    pub start_ev: u64,
    pub end: Nanos,
    pub end_ev: u64,
    pub out: Option<Outcome>,
    pub problem: Option<u16>,
    /// the plan drops this call's future at some point
    pub cancels: bool,
    pub wire: crate::flat::WireReq,
}
#[derive(Clone, Debug)]
pub struct HandlerRec {
    pub id: Option<u64>,
    pub server: usize,
    /// name of the procedure, or slot of the routing table
    pub what: String,
    pub req: String,
    pub res: String,
    pub wire: crate::flat::WireRes,
    pub at: Nanos,
    pub ev: u64,
    pub delay_us: u64,
    /// when its future was done, or dropped before that
    pub end: Option<Nanos>,
    pub dropped: Option<Nanos>,
}
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub start: Nanos,
    pub end: Nanos,
    pub start_ev: u64,
    pub end_ev: u64,
    /// per client: connections whose client socket is still open
    pub open: Vec<Vec<usize>>,
    pub quiescent: bool,
    pub stuck_tasks: Vec<usize>,
    pub first_conn: usize,
    pub open_before: Vec<Vec<usize>>,
    pub timeout: bool,
    pub raw_left: bool,
    pub listening: Vec<bool>,
    /// connections to servers which the client closed and the server did not
    pub unreleased: Vec<usize>,
}
/// Outcome of one `Await` of a raw client.
#[derive(Clone, Debug)]
pub struct AwaitRec {
    pub conn: usize,
    pub op: usize,
    pub at: Nanos,
    pub took: Nanos,
    pub msg: Option<crate::wire::Msg>,
}
#[derive(Clone, Debug)]
pub struct RawResult {
    pub phase: usize,
    pub task: usize,
    pub good: bool,
    pub conns: Vec<usize>,
    pub awaits: Vec<AwaitRec>,
}

pub struct Run {
    pub plan: Arc<Plan>,
    pub world: WorldRef,
    pub calls: Vec<CallRec>,
    pub by_id: std::collections::BTreeMap<u64, usize>,
    pub handlers: Vec<HandlerRec>,
    pub exits: Vec<(usize, Nanos, String)>,
    /// (server, time, event) of each server future that was dropped while running
    pub stops: Vec<(usize, Nanos, u64)>,
    /// extra servers that cannot bind: (server, time, event)
    pub rivals: Vec<(usize, Nanos)>,
    pub rival_exits: Vec<(usize, bool, String)>,
    pub snaps: Vec<Snap>,
    pub phase: usize,
    pub done: Vec<bool>,
    pub raw: Vec<RawResult>,
    pub delays: std::collections::BTreeMap<u64, u64>,
    pub levels: std::collections::BTreeMap<u64, u8>,
    pub pool_dropped: Vec<bool>,
    pub in_clone: std::collections::BTreeMap<usize, usize>,
    pub clone_overlaps: u64,
    /// threads that waited for a handler running on another one
    pub handler_waits: u64,
    pub clones: u64,
    pub fired: Vec<(Nanos, Fault)>,
    /// (slot, accepted) for each registration of the routing table
    pub reg_errors: Vec<(usize, bool)>,
    pub client_pids: Vec<mio::sim::ProcId>,
    /// longest time without an idle moment, per client
    pub lag: Vec<Nanos>,
    pub pool_exits: Vec<(usize, String)>,
    pub served: Vec<crate::actors::Served>,
    pub steps: u64,
    pub info: Vec<mio::sim::ConnInfo>,
    pub faults: std::collections::BTreeMap<&'static str, u64>,
    pub lines: Vec<String>,
}
pub type RunRef = Arc<Mutex<Run>>;

thread_local! {
    static CUR: RefCell<Option<RunRef>> = const { RefCell::new(None) };
}
pub fn set(r: Option<RunRef>) {
    CUR.with(|c| *c.borrow_mut() = r);
}
pub fn get() -> RunRef {
    CUR.with(|c| c.borrow().clone().expect("no run on this thread"))
}
pub fn try_get() -> Option<RunRef> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
pub fn lock(r: &RunRef) -> MutexGuard<'_, Run> {
    r.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn with<R>(f: impl FnOnce(&mut Run) -> R) -> R {
    let r = get();
    let mut g = lock(&r);
    f(&mut g)
}
pub fn wlock(w: &WorldRef) -> MutexGuard<'_, mio::sim::World> {
    w.lock().unwrap_or_else(|e| e.into_inner())
}

impl Run {
    pub fn new(plan: Arc<Plan>, world: WorldRef) -> Run {
        Run {
            plan,
            world,
            calls: vec![],
            by_id: Default::default(),
            handlers: vec![],
            exits: vec![],
            stops: vec![],
            rivals: vec![],
            rival_exits: vec![],
            snaps: vec![],
            phase: 0,
            done: vec![],
            raw: vec![],
            delays: Default::default(),
            levels: Default::default(),
            pool_dropped: vec![],
            in_clone: Default::default(),
            clone_overlaps: 0,
            handler_waits: 0,
            clones: 0,
            fired: vec![],
            reg_errors: vec![],
            client_pids: vec![],
            lag: vec![],
            pool_exits: vec![],
            served: vec![],
            steps: 0,
            info: vec![],
            faults: Default::default(),
            lines: vec![],
        }
    }
    pub fn now(&self) -> (Nanos, u64) {
        let w = wlock(&self.world);
        (w.now, w.events)
    }
    pub fn note(&self, s: &str) {
        wlock(&self.world).note(s);
    }
}

//! Scripted peers that speak to the simulated sockets directly: raw clients and raw servers.
use crate::ctx::{self, AwaitRec, RawResult, RunRef};
use crate::plan::*;
use crate::wire;
use std::sync::{Arc, Mutex};
use mio::sim::{LisId, Nanos, Obj, ProcId, SockId, World, US};

pub trait Actor {
    /// something can be done now
    fn runnable(&self, w: &World) -> bool;
    fn step(&mut self, w: &mut World);
    fn next_wake(&self, w: &World) -> Option<Nanos>;
    fn done(&self) -> bool;
    fn name(&self) -> String;
    fn finish(&mut self, _w: &mut World) {}
}

// ---------------------------------------------------------------- raw client

pub struct RawClient {
    pid: ProcId,
    ops: Vec<RawOp>,
    at: usize,
    sock: Option<SockId>,
    conn: usize,
    sent: usize,
    next_at: Nanos,
    started: Option<Nanos>,
    rx: Vec<u8>,
    used: usize,
    ended: bool,
    res: RawResult,
    out: RunRef,
    reported: bool,
}
impl RawClient {
    pub fn new(pid: ProcId, phase: usize, task: usize, good: bool, ops: Vec<RawOp>, out: RunRef) -> Self {
        RawClient {
            pid,
            ops,
            at: 0,
            sock: None,
            conn: 0,
            sent: 0,
            next_at: 0,
            started: None,
            rx: vec![],
            used: 0,
            ended: false,
            res: RawResult {
                phase,
                task,
                good,
                conns: vec![],
                awaits: vec![],
            },
            out,
            reported: false,
        }
    }
    fn next_op(&mut self) {
        self.at += 1;
        self.sent = 0;
        self.next_at = 0;
        self.started = None;
    }
    fn parsed(&self, head: bool) -> Option<wire::Msg> {
        match wire::parse_one(&self.rx, self.used, head) {
            Ok(Some(m)) if m.complete => Some(m),
            _ => None,
        }
    }
    fn awaited(&mut self, w: &World, t: Nanos, msg: Option<wire::Msg>) {
        self.res.awaits.push(AwaitRec {
            conn: self.conn,
            op: self.at,
            at: w.now,
            took: w.now - t,
            msg,
        });
    }
    fn close(&mut self, w: &mut World) {
        if let Some(s) = self.sock.take() {
            w.close_obj(Obj::Sock(s));
        }
    }
    fn drain(&mut self, w: &mut World) {
        let s = match self.sock {
            Some(s) => s,
            None => return,
        };
        let mut buf = [0u8; 4096];
        loop {
            match w.read(s, &mut buf) {
                Ok(0) => {
                    self.ended = true;
                    return;
                }
                Ok(n) => self.rx.extend_from_slice(&buf[..n]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => return,
                Err(_) => {
                    self.ended = true;
                    return;
                }
            }
        }
    }
}
impl Actor for RawClient {
    fn name(&self) -> String {
        format!("raw client p{}", self.pid)
    }
    fn finish(&mut self, w: &mut World) {
        self.close(w);
    }
    fn done(&self) -> bool {
        self.reported
    }
    fn runnable(&self, w: &World) -> bool {
        if self.reported {
            return false;
        }
        let op = match self.ops.get(self.at) {
            None => return true,
            Some(o) => o,
        };
        match op {
            RawOp::Connect { .. } => match (self.started, self.sock) {
                (None, _) | (_, None) => true,
                (Some(_), Some(s)) => !w.sock_connecting(s),
            },
            RawOp::Send { .. } => match self.sock {
                None => true,
                Some(s) => w.now >= self.next_at && w.sock_writable(s),
            },
            RawOp::Await { max_us, .. } => match (self.started, self.sock) {
                (None, _) | (_, None) => true,
                (Some(t), Some(s)) => w.sock_readable(s) || w.now >= t + max_us * US,
            },
            RawOp::Sleep { us } => match self.started {
                None => true,
                Some(t) => w.now >= t + us * US,
            },
            RawOp::ShutdownWrite | RawOp::Close | RawOp::Reset => true,
        }
    }
    fn next_wake(&self, w: &World) -> Option<Nanos> {
        if self.reported {
            return None;
        }
        match self.ops.get(self.at) {
            Some(RawOp::Send { .. }) if self.next_at > w.now => Some(self.next_at),
            Some(RawOp::Await { max_us, .. }) => self.started.map(|t| t + max_us * US),
            Some(RawOp::Sleep { us }) => self.started.map(|t| t + us * US),
            _ => None,
        }
    }
    fn step(&mut self, w: &mut World) {
        let op = match self.ops.get(self.at) {
            None => {
                self.close(w);
                self.reported = true;
                return;
            }
            Some(o) => o.clone(),
        };
        match op {
            RawOp::Connect { to } => {
                if self.started.is_none() {
                    self.close(w);
                    self.started = Some(w.now);
                    self.rx.clear();
                    self.used = 0;
                    self.ended = false;
                    match w.connect(self.pid, to) {
                        Ok(s) => {
                            self.conn = w.conn_of(s);
                            self.res.conns.push(self.conn);
                            self.sock = Some(s);
                        }
                        Err(_) => self.next_op(),
                    }
                } else {
                    self.next_op();
                }
            }
            RawOp::Send { bytes, chunk, gap_us } => {
                let s = match self.sock {
                    Some(s) => s,
                    None => return self.next_op(),
                };
                let end = if chunk == 0 {
                    bytes.0.len()
                } else {
                    (self.sent + chunk).min(bytes.0.len())
                };
                if self.sent >= bytes.0.len() {
                    return self.next_op();
                }
                match w.write(s, &bytes.0[self.sent..end]) {
                    Ok(n) => {
                        self.sent += n;
                        self.next_at = w.now + gap_us * US;
                        if self.sent >= bytes.0.len() {
                            self.next_op();
                        }
                    }
                    Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => self.next_op(),
                }
            }
            RawOp::Await { head, max_us, .. } => {
                if self.started.is_none() {
                    self.started = Some(w.now);
                }
                let t = self.started.unwrap();
                self.drain(w);
                if let Some(m) = self.parsed(head) {
                    self.used = m.end;
                    self.awaited(w, t, Some(m));
                    self.next_op();
                } else if self.ended || self.sock.is_none() || w.now >= t + max_us * US {
                    self.awaited(w, t, None);
                    self.next_op();
                }
            }
            RawOp::Sleep { us } => match self.started {
                None => self.started = Some(w.now),
                Some(t) if w.now >= t + us * US => self.next_op(),
                _ => {}
            },
            RawOp::ShutdownWrite => {
                if let Some(s) = self.sock {
                    let _ = w.shutdown(s, std::net::Shutdown::Write);
                }
                self.next_op();
            }
            RawOp::Close => {
                self.close(w);
                self.next_op();
            }
            RawOp::Reset => {
                if let Some(s) = self.sock {
                    w.set_linger(s, true);
                }
                self.close(w);
                self.next_op();
            }
        }
    }
}
impl RawClient {
    fn report(&self) {
        ctx::lock(&self.out).raw.push(self.res.clone());
    }
}
/// Results are published outside the world lock.
impl Drop for RawClient {
    fn drop(&mut self) {
        self.report();
    }
}

// ---------------------------------------------------------------- raw server

struct RConn {
    sock: SockId,
    conn: usize,
    plan: RawConnPlan,
    at: usize,
    rx: Vec<u8>,
    used: usize,
    sent: usize,
    next_at: Nanos,
    /// reply bytes are all out; hold until
    hold: Option<Nanos>,
    serving: bool,
    open: bool,
    half: bool,
    ended: bool,
}
pub struct RawServer {
    idx: usize,
    lis: LisId,
    plan: RawServerPlan,
    conns: Vec<RConn>,
    accepted: usize,
    served: Arc<Mutex<Vec<Served>>>,
}
/// Which reply was given to which call.
#[derive(Clone, Debug)]
pub struct Served {
    pub id: Option<u64>,
    pub raw: usize,
    pub conn: usize,
    pub cplan: usize,
    pub reply: usize,
}
impl RawServer {
    pub fn new(idx: usize, pid: ProcId, plan: RawServerPlan, served: Arc<Mutex<Vec<Served>>>, w: &mut World) -> Self {
        let lis = w.listen(pid, plan.addr).expect("raw listen");
        RawServer {
            idx,
            lis,
            plan,
            conns: vec![],
            accepted: 0,
            served,
        }
    }
    fn conn_runnable(c: &RConn, w: &World) -> bool {
        if !c.open {
            return false;
        }
        if w.sock_readable(c.sock) && !c.ended && !c.plan.deaf {
            return true;
        }
        if c.half {
            return c.ended;
        }
        match c.plan.replies.get(c.at) {
            None => c.ended || c.rx.len() > c.used,
            Some(r) => {
                if !c.serving {
                    !r.wait_request || c.ended || Self::request(c).is_some()
                } else if c.sent < r.bytes.0.len() {
                    w.now >= c.next_at && w.sock_writable(c.sock)
                } else {
                    c.hold.map_or(true, |t| w.now >= t)
                }
            }
        }
    }
    fn request(c: &RConn) -> Option<wire::Msg> {
        match wire::parse_one(&c.rx, c.used, false) {
            Ok(Some(m)) if m.complete => Some(m),
            _ => None,
        }
    }
    fn conn_step(&mut self, i: usize, w: &mut World) {
        let idx = self.idx;
        let c = &mut self.conns[i];
        if w.sock_readable(c.sock) && !c.ended && !c.plan.deaf {
            let mut buf = [0u8; 8192];
            loop {
                match w.read(c.sock, &mut buf) {
                    Ok(0) => {
                        c.ended = true;
                        break;
                    }
                    Ok(n) => c.rx.extend_from_slice(&buf[..n]),
                    Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => {
                        c.ended = true;
                        break;
                    }
                }
            }
            return;
        }
        if c.half {
            if c.ended {
                c.open = false;
                w.close_obj(Obj::Sock(c.sock));
            }
            return;
        }
        let r = match c.plan.replies.get(c.at) {
            None => {
                c.open = false;
                w.close_obj(Obj::Sock(c.sock));
                return;
            }
            Some(r) => r.clone(),
        };
        if !c.serving {
            let q = Self::request(c);
            if r.wait_request && q.is_none() {
                if c.ended {
                    c.open = false;
                    w.close_obj(Obj::Sock(c.sock));
                }
                return;
            }
            let id = match q {
                Some(m) => {
                    let id = wire::find_token(m.raw(&c.rx));
                    c.used = m.end;
                    id
                }
                None => None,
            };
            self.served.lock().unwrap().push(Served {
                id,
                raw: idx,
                conn: c.conn,
                cplan: i,
                reply: c.at,
            });
            c.serving = true;
            c.sent = 0;
            c.next_at = w.now + r.delay_us * US;
            c.hold = None;
            if r.bytes.0.is_empty() {
                c.hold = Some(c.next_at + r.hold_us * US);
            }
            return;
        }
        if c.sent < r.bytes.0.len() {
            let end = if r.chunk == 0 {
                r.bytes.0.len()
            } else {
                (c.sent + r.chunk).min(r.bytes.0.len())
            };
            match w.write(c.sock, &r.bytes.0[c.sent..end]) {
                Ok(n) => {
                    c.sent += n;
                    c.next_at = w.now + r.gap_us * US;
                }
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(_) => {
                    c.open = false;
                    w.close_obj(Obj::Sock(c.sock));
                    return;
                }
            }
            if c.sent >= r.bytes.0.len() {
                c.hold = Some(w.now + r.hold_us * US);
            }
            return;
        }
        c.serving = false;
        c.at += 1;
        match r.then {
            Then::Keep => {}
            Then::Close => {
                c.open = false;
                w.close_obj(Obj::Sock(c.sock));
            }
            Then::Rst => {
                c.open = false;
                w.set_linger(c.sock, true);
                w.close_obj(Obj::Sock(c.sock));
            }
            Then::HalfClose => {
                c.half = true;
                let _ = w.shutdown(c.sock, std::net::Shutdown::Write);
            }
        }
    }
}
impl Actor for RawServer {
    fn name(&self) -> String {
        format!("raw server {}", self.idx)
    }
    fn done(&self) -> bool {
        true
    }
    fn runnable(&self, w: &World) -> bool {
        w.lis_readable(self.lis) || self.conns.iter().any(|c| Self::conn_runnable(c, w))
    }
    fn next_wake(&self, w: &World) -> Option<Nanos> {
        let mut t: Option<Nanos> = None;
        for c in &self.conns {
            if !c.open {
                continue;
            }
            let mut add = |x: Nanos| {
                if x > w.now {
                    t = Some(t.map_or(x, |y: Nanos| y.min(x)))
                }
            };
            if c.serving {
                add(c.next_at);
                if let Some(h) = c.hold {
                    add(h);
                }
            }
        }
        t
    }
    fn step(&mut self, w: &mut World) {
        if w.lis_readable(self.lis) {
            if let Ok((s, _)) = w.accept(self.lis) {
                let n = self.accepted.min(self.plan.conns.len() - 1);
                self.accepted += 1;
                self.conns.push(RConn {
                    sock: s,
                    conn: w.conn_of(s),
                    plan: self.plan.conns[n].clone(),
                    at: 0,
                    rx: vec![],
                    used: 0,
                    sent: 0,
                    next_at: 0,
                    hold: None,
                    serving: false,
                    open: true,
                    half: false,
                    ended: false,
                });
            }
            return;
        }
        for i in 0..self.conns.len() {
            if Self::conn_runnable(&self.conns[i], w) {
                self.conn_step(i, w);
                return;
            }
        }
    }
}

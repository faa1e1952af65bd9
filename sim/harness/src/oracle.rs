//! Judges the recorded history of a finished run against the properties.
use crate::ctx::{CallRec, Expect, HandlerRec, Outcome, Run};
use crate::flat;
use crate::plan::*;
use crate::procs;
use crate::rt::Finished;
use crate::wire::{self, Parsed};
use mio::sim::{Nanos, MS, SEC, US};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub msg: String,
}
struct J<'a> {
    r: &'a Run,
    out: Vec<Violation>,
    /// requests per connection (of any client)
    reqs: Vec<Parsed>,
    /// responses per connection
    ress: Vec<Parsed>,
    /// call id -> (connection, index of the request on it)
    wires: BTreeMap<u64, Vec<(usize, usize)>>,
    handlers: BTreeMap<u64, Vec<&'a HandlerRec>>,
    /// dial index range with cuts
    cut: BTreeSet<usize>,
}

pub const DEFAULT_BOUND_MS: u64 = 20_000;

pub fn judge(f: &Finished) -> Vec<Violation> {
    let r = &f.run;
    let mut reqs = vec![];
    let mut ress = vec![];
    for i in &r.info {
        let q = wire::requests(&i.wrote[0]);
        let m: Vec<String> = q.msgs.iter().map(|m| m.method().to_string()).collect();
        ress.push(wire::responses(&i.wrote[1], &m));
        reqs.push(q);
    }
    let mut wires: BTreeMap<u64, Vec<(usize, usize)>> = BTreeMap::new();
    for (c, q) in reqs.iter().enumerate() {
        for (k, m) in q.msgs.iter().enumerate() {
            if let Some(id) = wire::find_token(m.raw(&r.info[c].wrote[0])) {
                wires.entry(id).or_default().push((c, k));
            }
        }
    }
    let mut handlers: BTreeMap<u64, Vec<&HandlerRec>> = BTreeMap::new();
    for h in &r.handlers {
        if let Some(id) = h.id {
            handlers.entry(id).or_default().push(h);
        }
    }
    let cut = r.plan.cuts.iter().filter(|c| c.mode < 2).map(|c| c.conn).collect();
    let mut j = J {
        r,
        out: vec![],
        reqs,
        ress,
        wires,
        handlers,
        cut,
    };
    j.progress(f);
    j.calls();
    j.connections();
    j.wire_format();
    j.raw();
    j.routing();
    j.pool();
    j.suspend();
    j.timeouts();
    j.server_alive();
    j.release();
    j.lifecycle();
    j.handlers_end(f);
    j.raw_servers();
    if r.clone_overlaps > 0 {
        j.v("C16", format!("the registered handler value was cloned by two threads at once ({} times)", r.clone_overlaps));
    }
    if r.handler_waits > 0 {
        j.v("C16", format!("a server thread waited while a handler ran on another one ({} times)", r.handler_waits));
    }
    j.out
}

fn is_ok(c: &CallRec) -> bool {
    matches!(c.out, Some(Outcome::Ok(_)))
}
fn is_err(c: &CallRec) -> bool {
    matches!(c.out, Some(Outcome::Err(_)))
}
fn short(s: &str) -> String {
    if s.chars().count() > 400 {
        let t: String = s.chars().take(400).collect();
        format!("{}... ({} chars)", t, s.chars().count())
    } else {
        s.to_string()
    }
}
/// The part in which two long texts differ.
fn diff(a: &str, b: &str) -> String {
    let x: Vec<char> = a.chars().collect();
    let y: Vec<char> = b.chars().collect();
    let p = x.iter().zip(y.iter()).take_while(|(a, b)| a == b).count();
    let s = p.saturating_sub(30);
    let cut = |v: &Vec<char>| -> String { v.iter().skip(s).take(120).collect() };
    format!("at char {}: ...{} <> ...{}", p, cut(&x), cut(&y))
}

impl<'a> J<'a> {
    fn v(&mut self, prop: &'static str, msg: String) {
        if self.out.iter().filter(|x| x.prop == prop).count() < 5 {
            self.out.push(Violation { prop, msg });
        }
    }
    fn family(&self) -> &str {
        &self.r.plan.family
    }
    fn healthy(&self, c: &CallRec) -> bool {
        self.r.plan.phases[c.phase].healthy
    }
    fn client_of_conn(&self, conn: usize) -> Option<usize> {
        let p = self.r.info[conn].client_proc;
        self.r.client_pids.iter().position(|&q| q == p)
    }
    fn is_server_addr(&self, conn: usize) -> bool {
        self.r.plan.servers.iter().any(|s| Some(s.addr) == self.r.info[conn].to)
    }
    fn killed(&self, addr: std::net::SocketAddr) -> bool {
        self.r.fired.iter().any(|(_, f)| match f {
            Fault::KillServer { server, .. } => self.r.plan.servers[*server].addr == addr,
            _ => false,
        })
    }
    fn call_of_msg(&self, conn: usize, k: usize) -> Option<&'a CallRec> {
        let r = self.r;
        let m = &self.reqs[conn].msgs[k];
        let id = wire::find_token(m.raw(&r.info[conn].wrote[0]))?;
        r.by_id.get(&id).map(|&i| &r.calls[i])
    }

    // ---- panics, hangs ----
    fn progress(&mut self, f: &Finished) {
        let healthy = self.r.plan.phases[self.r.phase].healthy;
        if let Some(p) = &f.panic {
            let m = format!("{} panicked: {}", p.node, short(&p.msg));
            self.v(if p.client { "C15" } else { "C08" }, m.clone());
            self.v("C14", m.clone());
            if self.family() == "lifecycle" {
                self.v("C18", m.clone());
            }
            if healthy {
                self.v("C01", m.clone());
                if !p.client {
                    self.v("C07", m);
                }
            }
            return;
        }
        if f.over_steps {
            self.v("C14", format!("no end after {} steps", self.r.steps));
            self.v("C08", format!("no end after {} steps", self.r.steps));
        }
        for (i, s) in self.r.snaps.iter().enumerate() {
            if f.over_steps && i + 1 == self.r.snaps.len() {
                continue;
            }
            for c in self.r.calls.iter().filter(|c| c.phase == i && (c.out.is_none() || c.end_ev > s.end_ev)) {
                let m = format!(
                    "call {} ({:?} to {}) is still pending at the end of phase {} ({}), {} ms after it started{}",
                    c.id,
                    c.kind,
                    c.to,
                    i,
                    self.r.plan.phases[i].name,
                    s.end.saturating_sub(c.start) / MS,
                    if s.timeout { "" } else { ", and nothing is left to happen" }
                );
                self.v("C14", m.clone());
                if self.r.plan.phases[i].healthy {
                    self.v("C01", m.clone());
                    if self.handlers.get(&c.id).map_or(false, |h| h.iter().any(|h| h.end.is_some())) {
                        self.v("C02", format!("{}, although its handler has answered", m));
                    }
                    if self.family() == "hostile" {
                        self.v("C08", m.clone());
                    }
                    if self.family() == "rawserver" {
                        self.v("C15", m.clone());
                    }
                    if self.family() == "bystander" && !c.cancels {
                        self.v("C21", m.clone());
                    }
                    if self.family() == "threads" {
                        self.v("C16", m);
                    }
                } else if self.r.plan.phases[i].recover {
                    self.v("C11", m);
                } else if self.r.plan.raws.iter().any(|r| r.addr == c.to) {
                    self.v("C15", m);
                }
            }
        }
        for (c, s) in self.r.pool_exits.clone() {
            self.v("C14", format!("pool of client {} ended by itself: {}", c, s));
        }
    }

    // ---- per call ----
    fn calls(&mut self) {
        let has_raw = self
            .r
            .plan
            .phases
            .iter()
            .any(|p| p.tasks.iter().any(|t| matches!(t, TaskPlan::Raw { .. })));
        for h in &self.r.handlers {
            let known = h.id.map_or(false, |i| self.r.by_id.contains_key(&i));
            if !known && !has_raw {
                self.v(
                    "C01",
                    format!("handler {} was invoked with a request nobody made: {}", h.what, short(&h.req)),
                );
            }
        }
        for c in &self.r.calls {
            let hs: Vec<&HandlerRec> = self.handlers.get(&c.id).cloned().unwrap_or_default();
            let ws = self.wires.get(&c.id).cloned().unwrap_or_default();
            let what = procs::what(c.kind);
            let raw_target = self.r.plan.raws.iter().any(|r| r.addr == c.to);
            // C01, C06
            for h in &hs {
                if let Expect::Problem(n) = c.expect {
                    self.v(
                        "C07",
                        format!("call {} ({:?}) has to be answered {} but handler {} ran", c.id, c.kind, n, h.what),
                    );
                    continue;
                }
                if h.what != what {
                    let m = format!("call {} of {} was dispatched to {}", c.id, what, h.what);
                    self.v("C01", m.clone());
                    self.v("C06", m);
                } else if h.req != c.req {
                    self.v(
                        "C01",
                        format!("call {} ({:?}): the handler received a different request, {}", c.id, c.kind, diff(&c.req, &h.req)),
                    );
                }
                if self.r.plan.servers[h.server].addr != c.to {
                    self.v("C09", format!("call {} to {} was executed by {}", c.id, c.to, self.r.plan.servers[h.server].addr));
                }
            }
            // C03
            if hs.len() > 1 {
                self.v("C03", format!("call {} ({:?}) was executed {} times", c.id, c.kind, hs.len()));
            }
            if ws.len() > 1 {
                self.v("C03", format!("the request of call {} was sent {} times (connections {:?})", c.id, ws.len(), ws));
            }
            if !hs.is_empty() {
                let complete = ws.iter().any(|&(cn, k)| {
                    let m = &self.reqs[cn].msgs[k];
                    m.complete && m.end <= self.r.info[cn].arrived[0]
                });
                if !complete {
                    let m = format!(
                        "call {} ({:?}) was executed although its complete request never arrived at the server",
                        c.id, c.kind
                    );
                    self.v("C03", m.clone());
                    self.v("C04", m);
                }
            }
            // C02, C03, C04
            if let Some(Outcome::Ok(val)) = &c.out {
                if !raw_target {
                    match c.expect {
                        Expect::Problem(n) => {
                            if c.problem != Some(n) {
                                self.v(
                                    "C07",
                                    format!("call {} ({:?}) has to be answered with a {} problem, got {}", c.id, c.kind, n, short(val)),
                                );
                            }
                        }
                        Expect::Handler | Expect::Narrow => {
                            if hs.is_empty() {
                                self.v("C03", format!("call {} ({:?}) succeeded but was never executed: {}", c.id, c.kind, short(val)));
                                self.v("C02", format!("call {} ({:?}) succeeded without a handler response: {}", c.id, c.kind, short(val)));
                                // what the caller took for a response is a refusal
                                if self.healthy(c) && c.must && !c.cancels {
                                    let m = format!("call {} ({:?}) on a healthy network never reached its handler: {} -- request {}", c.id, c.kind, short(val), short(&c.req));
                                    let status = ws
                                        .first()
                                        .and_then(|&(cn, k)| self.ress[cn].msgs.get(k).and_then(|m| m.status()));
                                    if status == Some(404) || status == Some(405) {
                                        self.v("C06", m.clone());
                                    }
                                    self.v("C07", m.clone());
                                    self.v("C01", m);
                                }
                            } else if hs.iter().all(|h| &h.res != val) {
                                self.v(
                                    "C02",
                                    format!("call {} ({:?}) returned another response than its handler gave, {}", c.id, c.kind, diff(&hs[0].res, val)),
                                );
                            }
                        }
                    }
                }
                // (what raw servers answer is judged in `raw_servers`)
                let raw = self.r.plan.raws.iter().any(|x| x.addr == c.to);
                for &(cn, k) in ws.iter().filter(|_| !raw) {
                    if let Some(m) = self.ress[cn].msgs.get(k) {
                        if !m.complete || m.end > self.r.info[cn].arrived[1] {
                            self.v(
                                "C04",
                                format!("call {} ({:?}) succeeded although its response was cut off after {} of {} bytes",
                                    c.id, c.kind, self.r.info[cn].arrived[1].saturating_sub(m.start), m.end - m.start),
                            );
                        }
                    } else {
                        self.v("C04", format!("call {} ({:?}) succeeded without a response on its connection", c.id, c.kind));
                    }
                }
            }
            // complete messages are delivered
            if !raw_target && !c.cancels && c.must {
                for &(cn, k) in &ws {
                    let i = &self.r.info[cn];
                    let m = &self.reqs[cn].msgs[k];
                    let alive = !self.killed(c.to);
                    let handled_kind = !matches!(c.expect, Expect::Problem(_));
                    if alive && handled_kind && m.complete && m.end <= i.arrived[0] && !i.rst_seen[1] && i.accepted_at.is_some()
                        && hs.is_empty() && self.settled(c.phase)
                    {
                        self.v("C04", format!("call {} ({:?}): the complete request arrived but no handler ran", c.id, c.kind));
                    }
                    if let Some(s) = self.ress[cn].msgs.get(k) {
                        if s.complete && s.end <= i.arrived[1] && !i.rst_seen[0] && is_err(c) && c.expect == Expect::Handler {
                            self.v(
                                "C04",
                                format!("call {} ({:?}): the complete response arrived but the call failed: {:?}", c.id, c.kind, c.out),
                            );
                        }
                    }
                }
            }
            // healthy: representable calls succeed, in time
            if self.healthy(c) && !c.cancels && !raw_target {
                if c.must && c.expect != Expect::Narrow {
                    if let Some(Outcome::Err(e)) = &c.out {
                        let status = ws
                            .first()
                            .and_then(|&(cn, k)| self.ress[cn].msgs.get(k).and_then(|m| m.status()));
                        let m = format!(
                            "call {} ({:?} to {}) failed on a healthy network (answer {:?}, executed {}): {} -- request {}",
                            c.id, c.kind, c.to, status, hs.len(), short(e), short(&c.req)
                        );
                        match c.expect {
                            Expect::Problem(_) => self.v("C07", m.clone()),
                            _ => {
                                if hs.is_empty() {
                                    self.v("C01", m.clone());
                                } else {
                                    // executed, but its response did not come back
                                    self.v("C02", m.clone());
                                    self.v("C01", m.clone());
                                }
                            }
                        }
                        if hs.is_empty() && c.expect == Expect::Handler {
                            if let Some(s) = status {
                                if s == 404 || s == 405 {
                                    self.v("C06", m.clone());
                                }
                                if s == 400 || s == 404 || s == 405 {
                                    self.v("C07", m.clone());
                                }
                            }
                        }
                        self.v("C14", m.clone());
                        if self.family() == "hostile" {
                            self.v("C08", m.clone());
                        }
                        if self.family() == "rawserver" {
                            self.v("C15", m.clone());
                        }
                        if self.family() == "bystander" {
                            self.v("C21", m.clone());
                        }
                        if self.family() == "pool" {
                            self.v("C11", m.clone());
                        }
                        if self.family() == "connect" {
                            self.v("C13", m.clone());
                            self.v("C12", m);
                        }
                    }
                }
                if is_ok(c) {
                    let b = self.r.plan.phases[c.phase].bound_ms;
                    let b = if b == 0 { DEFAULT_BOUND_MS } else { b };
                    let lim = c.delay_us * US + b * MS + self.planned_delay();
                    if c.end - c.start > lim {
                        let m = format!(
                            "call {} ({:?}) took {} ms (handler delay {} ms)",
                            c.id,
                            c.kind,
                            (c.end - c.start) / MS,
                            c.delay_us / 1000
                        );
                        self.v("C14", m.clone());
                        self.v("C08", m.clone());
                        if self.family() == "bystander" {
                            self.v("C21", m.clone());
                        }
                        if self.family() == "threads" {
                            self.v("C16", m);
                        }
                    }
                }
            }
        }
    }
    fn settled(&self, phase: usize) -> bool {
        self.r.snaps.get(phase).map_or(false, |s| s.quiescent)
    }
    /// delays the plan itself puts into the network
    fn planned_delay(&self) -> Nanos {
        let mut t = 0;
        for c in &self.r.plan.cuts {
            if c.mode == 2 {
                t += c.us * US;
            }
        }
        for p in &self.r.plan.phases {
            for f in &p.faults {
                match f.f {
                    Fault::Pause { us, .. } | Fault::Slow { us, .. } | Fault::AcceptEmfile { us, .. } => t += us * US,
                    _ => {}
                }
            }
        }
        t
    }

    // ---- per connection: framing (C05) ----
    fn connections(&mut self) {
        for cn in 0..self.r.info.len() {
            if !self.is_server_addr(cn) {
                continue;
            }
            let i = &self.r.info[cn];
            let good = match self.client_of_conn(cn) {
                Some(_) => true,
                None => self.r.raw.iter().any(|x| x.good && x.conns.contains(&cn)),
            };
            let rq = self.reqs[cn].clone();
            let rs = self.ress[cn].clone();
            if self.client_of_conn(cn).is_some() {
                if let Some(e) = &rq.error {
                    self.v("C01", format!("connection {}: the client wrote a malformed request: {}", cn, e));
                }
                for m in &rq.msgs {
                    if wire::find_token(m.raw(&i.wrote[0])).is_none() {
                        self.v("C01", format!("connection {}: the client sent a request that belongs to no call: {:?}", cn, m.line));
                    }
                }
            }
            if !good {
                continue;
            }
            if let Some(e) = &rs.error {
                self.v("C05", format!("connection {}: malformed response {}: {}", cn, rs.msgs.len(), e));
                continue;
            }
            let heads = rq
                .msgs
                .iter()
                .filter(|m| m.head_end <= i.arrived[0])
                .count();
            if rs.msgs.len() > heads || (rs.msgs.len() == heads && rs.rest > 0) {
                self.v("C05", format!("connection {}: {} responses (+{} bytes) to {} requests", cn, rs.msgs.len(), rs.rest, heads));
                continue;
            }
            for (k, m) in rs.msgs.iter().enumerate() {
                if m.declared.is_none() && !procs::bodyless(m.status().unwrap_or(0)) && rq.msgs[k].method() != "HEAD" {
                    self.v("C05", format!("connection {}: response {} has no Content-Length", cn, k));
                }
                let q = wire::find_token(rq.msgs[k].raw(&i.wrote[0]));
                let s = wire::find_token(m.raw(&i.wrote[1]));
                if let (Some(q), Some(s)) = (q, s) {
                    if q != s {
                        let t = format!("connection {}: response {} is for call {} but the request was {}", cn, k, s, q);
                        self.v("C05", t.clone());
                        self.v("C02", t);
                    }
                }
            }
            // completeness
            let undisturbed = !i.rst_seen[0]
                && !i.rst_seen[1]
                && !self.cut.contains(&cn)
                && i.accepted_at.is_some()
                && !self.killed(i.to.unwrap())
                && rq.error.is_none();
            let representable = (0..rq.msgs.len()).all(|k| self.call_of_msg(cn, k).map_or(true, |c| {
                c.must && c.expect != Expect::Narrow && !c.cancels
            }));
            if !undisturbed || !representable {
                continue;
            }
            let quiet = self.r.snaps.last().map_or(false, |s| s.quiescent);
            let complete: usize = rq.msgs.iter().filter(|m| m.complete && m.end <= i.arrived[0]).count();
            let answered = rs.msgs.iter().filter(|m| m.complete).count();
            if quiet && answered < complete && i.client_closed_at.is_none() {
                self.v("C05", format!("connection {}: {} complete requests but only {} responses", cn, complete, answered));
                continue;
            }
            if let Some(t) = i.server_closed_at {
                if i.ended[1].map_or(true, |e| e > t) {
                    self.v(
                        "C05",
                        format!("connection {}: the server closed it after {} of {} requests although the client had not", cn, answered, rq.msgs.len()),
                    );
                }
            }
        }
    }

    // ---- raw clients ----
    fn raw(&mut self) {
        for rr in &self.r.raw {
            let ops = match &self.r.plan.phases[rr.phase].tasks[rr.task] {
                TaskPlan::Raw { ops, .. } => ops,
                _ => continue,
            };
            for a in &rr.awaits {
                let exp = match &ops[a.op] {
                    RawOp::Await { expect: Some(e), .. } => e,
                    _ => continue,
                };
                let hs: Vec<&HandlerRec> = self.handlers.get(&exp.id).cloned().unwrap_or_default();
                let line = self
                    .wires
                    .get(&exp.id)
                    .and_then(|w| w.first())
                    .map(|&(c, k)| self.reqs[c].msgs[k].line.clone())
                    .unwrap_or_default();
                if hs.len() > 1 {
                    self.v("C03", format!("raw request {} ({}) was executed {} times", exp.id, line, hs.len()));
                }
                let m = match &a.msg {
                    Some(m) => m.clone(),
                    None => {
                        let t = format!(
                            "raw request {} ({}) of a well-behaved client on connection {} got no complete response within {} ms",
                            exp.id, line, a.conn, a.took / MS
                        );
                        self.v("C05", t.clone());
                        self.v("C08", t.clone());
                        self.v("C04", t.clone());
                        if exp.problem.is_some() {
                            self.v("C07", t.clone());
                        }
                        if self.family() == "routing" {
                            self.v("C06", t);
                        }
                        continue;
                    }
                };
                let lim = 20 * SEC + self.planned_delay();
                if a.took > lim {
                    self.v("C08", format!("raw request {} ({}) was answered only after {} ms", exp.id, line, a.took / MS));
                }
                let st = m.status().unwrap_or(0);
                match exp.problem {
                    None => {
                        if hs.is_empty() {
                            let t = format!("raw request {} ({}) has to be handled by {}, but was answered {} without a handler", exp.id, line, exp.what, st);
                            if st == 400 {
                                self.v("C07", t);
                            } else {
                                self.v("C06", t.clone());
                                self.v("C07", t);
                            }
                        } else if hs[0].what != exp.what {
                            self.v("C06", format!("raw request {} ({}) has to be handled by {}, but {} ran", exp.id, line, exp.what, hs[0].what));
                        } else if let Some(s) = &exp.seen {
                            if s != &hs[0].req {
                                self.v("C01", format!("raw request {} ({}): the handler received a different request, {}", exp.id, line, diff(s, &hs[0].req)));
                                self.v("C07", format!("raw request {} ({}): the handler received a different request, {}", exp.id, line, diff(s, &hs[0].req)));
                            }
                        }
                    }
                    Some(n) => {
                        if !hs.is_empty() {
                            let t = format!("raw request {} ({}) has to be answered {} but handler {} ran", exp.id, line, n, hs[0].what);
                            self.v("C07", t.clone());
                            if n != 400 {
                                self.v("C06", t);
                            }
                        } else if st != n {
                            self.v("C07", format!("raw request {} ({}) has to be answered {} but was answered {}", exp.id, line, n, st));
                        } else if !line.starts_with("HEAD ") {
                            let ct = m.header("content-type").map(|v| String::from_utf8_lossy(v).into_owned());
                            let js: Option<serde_json::Value> = serde_json::from_slice(&m.body).ok();
                            let ok = ct.as_deref() == Some("application/problem+json")
                                && js.as_ref().map_or(false, |j| {
                                    j.get("status").and_then(|s| s.as_u64()) == Some(n as u64)
                                        && match (j.get("type").and_then(|t| t.as_str()), j.get("title").and_then(|t| t.as_str())) {
                                            // (RFC 7807, 4.2)
                                            (Some("about:blank"), Some(t)) => t == match n { 404 => "Not Found", 405 => "Method Not Allowed", _ => "Bad Request" },
                                            (Some(y), Some(t)) => y.starts_with("https://docs.rs/htrpc/") && !t.is_empty(),
                                            _ => false,
                                        }
                                });
                            if !ok {
                                self.v(
                                    "C07",
                                    format!("raw request {} ({}): the {} response carries no problem description (content-type {:?}, body {:?})",
                                        exp.id, line, n, ct, String::from_utf8_lossy(&m.body[..m.body.len().min(200)])),
                                );
                            }
                        }
                    }
                }
            }
            // requests cut off by their sender are not executed
            for &cn in &rr.conns {
                // (not the ones sent without waiting for the responses before)
                let waited = rr.awaits.iter().filter(|a| a.msg.is_some()).count();
                for m in self.reqs[cn].msgs.clone().iter().take(1 + waited) {
                    if m.complete && m.end <= self.r.info[cn].arrived[0] {
                        continue;
                    }
                    // (a receiver may take a bare LF for the end of a line)
                    let raw = m.raw(&self.r.info[cn].wrote[0]);
                    let head = raw.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(raw.len());
                    if (1..head).any(|k| raw[k] == b'\n' && raw[k - 1] != b'\r') {
                        continue;
                    }
                    if let Some(id) = wire::find_token(m.raw(&self.r.info[cn].wrote[0])) {
                        if self.handlers.contains_key(&id) {
                            self.v(
                                "C04",
                                format!("raw request {} ({}) was executed with only {} of {} bytes arrived",
                                    id, m.line, self.r.info[cn].arrived[0].saturating_sub(m.start), m.end - m.start),
                            );
                        }
                    }
                }
            }
        }
        // a handler run without any request on the wire (what misbehaving clients send may be
        // taken for a request or not)
        if self.r.raw.is_empty() || self.r.plan.family == "hostile" {
            return;
        }
        for h in &self.r.handlers {
            match h.id {
                Some(id) if self.wires.contains_key(&id) => {}
                _ => self.v("C05", format!("handler {} ran for something that is no request: {}", h.what, short(&h.req))),
            }
        }
    }

    // ---- messages as an independent reader of HTTP understands them (C19) ----
    fn wire_format(&mut self) {
        let r = self.r;
        for cn in 0..r.info.len() {
            let client = self.client_of_conn(cn).is_some();
            for k in 0..self.reqs[cn].msgs.len() {
                let id = match wire::find_token(self.reqs[cn].msgs[k].raw(&r.info[cn].wrote[0])) {
                    Some(id) => id,
                    None => continue,
                };
                if client && self.reqs[cn].msgs[k].complete {
                    if let Some(c) = r.by_id.get(&id).map(|&i| &r.calls[i]) {
                        if let Err(e) = flat::request(&c.wire, &self.reqs[cn].msgs[k]) {
                            self.v("C19", format!("the request of call {} ({:?}) reads differently on the wire: {}", id, c.kind, e));
                        }
                    }
                }
                if self.wires.get(&id).map_or(0, |w| w.len()) != 1 || !self.is_server_addr(cn) {
                    continue;
                }
                let h = match self.handlers.get(&id) {
                    Some(h) if h.len() == 1 => h[0],
                    _ => continue,
                };
                let head = self.reqs[cn].msgs[k].method() == "HEAD";
                if let Some(m) = self.ress[cn].msgs.get(k).filter(|m| m.complete).cloned() {
                    let m = &m;
                    // a problem document names the status of its response
                    if !head && (h.what == "ProblemP" || h.what == "ProbEnum") && m.header("content-type").map_or(false, |v| v == b"application/problem+json") {
                        let doc: Option<serde_json::Value> = serde_json::from_slice(&m.body).ok();
                        let st = doc.as_ref().and_then(|d| d["status"].as_u64());
                        if st != m.status().map(|s| s as u64) {
                            self.v("C19", format!("the response of {} to request {} has the status {:?} but its problem document says {:?}", h.what, id, m.status(), st));
                        }
                    }
                    if let Err(e) = flat::response(&h.wire, m, head) {
                        self.v("C19", format!("the response of {} to request {} reads differently on the wire: {}", h.what, id, e));
                    }
                }
            }
            if client {
                if let Some(e) = self.reqs[cn].error.clone() {
                    self.v("C19", format!("connection {}: the client wrote a malformed request: {}", cn, e));
                }
            }
            if self.is_server_addr(cn) {
                if let Some(e) = self.ress[cn].error.clone() {
                    self.v("C19", format!("connection {}: the server wrote a malformed response: {}", cn, e));
                }
            }
        }
    }

    // ---- registration of the routing table (C06) ----
    fn routing(&mut self) {
        let t = &self.r.plan.table;
        for &(slot, ok) in &self.r.reg_errors {
            let dup = t[..slot].iter().any(|x| x == &t[slot]);
            if dup == ok {
                self.v(
                    "C06",
                    format!("registering slot {} ({:?}) was {}", slot, t[slot], if ok { "accepted although it is registered already" } else { "refused" }),
                );
            }
        }
    }

    fn server_alive(&mut self) {
        for (s, t, m) in self.r.exits.clone() {
            self.v("C08", format!("server {} terminated at {} ms: {}", s, t / MS, short(&m)));
        }
        if let Some(s) = self.r.snaps.last() {
            let l = s.listening.clone();
            for (i, up) in l.iter().enumerate() {
                let addr = self.r.plan.servers[i].addr;
                let stopped = self.r.fired.iter().any(|(_, f)| matches!(f, Fault::StopServer { server } if *server == i));
                if !up && !self.killed(addr) && !stopped {
                    self.v("C08", format!("server {} no longer listens", i));
                }
            }
        }
    }

    // ---- connections are given back (C17) ----
    fn release(&mut self) {
        for (pi, s) in self.r.snaps.iter().enumerate() {
            if !s.quiescent {
                continue;
            }
            // (requests that are still being handled keep their connection)
            let busy: BTreeSet<usize> = self.r.handlers.iter().filter(|h| h.at < s.end && h.end.or(h.dropped).map_or(true, |e| e >= s.end)).map(|h| h.server).collect();
            for &cn in &s.unreleased {
                if busy.iter().any(|&b| Some(self.r.plan.servers[b].addr) == self.r.info[cn].to) {
                    continue;
                }
                if self.is_server_addr(cn) {
                    let i = &self.r.info[cn];
                    self.v("C17", format!("the server still holds connection {} after phase {}, whose client closed it at {} ms", cn, pi, i.client_closed_at.unwrap() / MS));
                }
            }
            for cl in 0..self.r.plan.clients.len() {
                let pending = self.r.calls.iter().any(|c| c.client == cl && c.phase <= pi && (c.out.is_none() || c.end_ev > s.end_ev));
                if pending {
                    continue;
                }
                for &cn in &s.open[cl] {
                    let direct = (0..self.reqs[cn].msgs.len()).filter_map(|k| self.call_of_msg(cn, k)).find(|c| !c.pooled);
                    if let Some(c) = direct {
                        self.v("C17", format!("connection {} of the direct call {} is still open after phase {}", cn, c.id, pi));
                    } else if self.r.plan.clients[cl].pool.is_none() {
                        self.v("C17", format!("client {} without a pool still holds connection {} after phase {}", cl, cn, pi));
                    }
                }
            }
        }
        // a direct call has a connection of its own, and one only
        for cl in 0..self.r.plan.clients.len() {
            let calls = self.r.calls.iter().filter(|c| c.client == cl).count();
            let dials = (0..self.r.info.len()).filter(|&c| self.client_of_conn(c) == Some(cl)).count();
            if dials > calls {
                self.v("C17", format!("client {} opened {} connections for {} calls", cl, dials, calls));
            }
        }
        for cn in 0..self.r.info.len() {
            if self.client_of_conn(cn).is_none() {
                continue;
            }
            let n = self.reqs[cn].msgs.len();
            let direct = (0..n).filter_map(|k| self.call_of_msg(cn, k)).find(|c| !c.pooled);
            if let (Some(c), true) = (direct, n > 1) {
                self.v("C17", format!("connection {} of the direct call {} carried {} requests", cn, c.id, n));
            }
        }
    }

    // ---- handlers run to their end (C20) ----
    fn handlers_end(&mut self, f: &Finished) {
        if f.panic.is_some() || f.over_steps {
            return;
        }
        let r = self.r;
        let end = r.snaps.last().map_or(0, |s| s.end);
        let slack = self.planned_delay() + 5 * SEC;
        for h in &r.handlers {
            let kills = r.fired.iter().filter(|(_, f)| matches!(f, Fault::KillServer { server, .. } if *server == h.server)).map(|x| x.0);
            let killed = kills.filter(|&t| t >= h.at).min();
            if let Some(d) = h.dropped {
                if killed.map_or(true, |k| d < k) {
                    self.v("C20", format!("the handler {} of call {:?}, started at {} ms, was dropped at {} ms before it was done", h.what, h.id, h.at / MS, d / MS));
                }
            } else if let Some(e) = h.end {
                let due = h.at + h.delay_us * US;
                if e > due + slack {
                    self.v("C20", format!("the handler {} of call {:?} was ready at {} ms but driven on only at {} ms", h.what, h.id, due / MS, e / MS));
                }
            } else if killed.is_none() && end > h.at + h.delay_us * US + slack {
                self.v("C20", format!("the handler {} of call {:?}, started at {} ms, was ready after {} ms but is still not driven to its end at {} ms", h.what, h.id, h.at / MS, h.delay_us / 1000, end / MS));
            }
        }
    }

    // ---- starting and stopping servers (C18) ----
    fn lifecycle(&mut self) {
        let r = self.r;
        for (s, failed, m) in &r.rival_exits {
            if !failed {
                self.v("C18", format!("a second server for the address of server {} ended with {} instead of an error", s, short(m)));
            }
        }
        let quiescent = r.snaps.last().map_or(false, |s| s.quiescent) && r.snaps.len() == r.plan.phases.len();
        if quiescent && r.rivals.len() > r.rival_exits.len() {
            self.v("C18", format!("{} of {} servers that could not bind their address never reported it", r.rivals.len() - r.rival_exits.len(), r.rivals.len()));
        }
        for (srv, at) in r.fired.iter().filter_map(|(t, f)| match f {
            Fault::StopServer { server } => Some((*server, *t)),
            _ => None,
        }) {
            let addr = r.plan.servers[srv].addr;
            let again = r.fired.iter().find(|(t, f)| *t >= at && matches!(f, Fault::StartServer { server } if *server == srv)).map(|x| x.0);
            let dropped = r.stops.iter().find(|s| s.0 == srv && s.1 >= at);
            let (t, ev) = match dropped {
                Some(s) => (s.1, s.2),
                None => continue,
            };
            let _ = ev;
            for (pi, s) in r.snaps.iter().enumerate() {
                if s.quiescent && s.end > t && again.map_or(true, |a| a > s.end) && s.listening[srv] {
                    self.v("C18", format!("server {} still listens after phase {} although its future was dropped at {} ms", srv, pi, t / MS));
                }
                let last = r.fired.iter().filter(|(t, _)| *t < s.end).filter_map(|(_, f)| match f {
                    Fault::StopServer { server } if *server == srv => Some(false),
                    Fault::StartServer { server } if *server == srv => Some(true),
                    _ => None,
                }).last();
                if s.quiescent && last == Some(true) && !s.listening[srv] {
                    self.v("C18", format!("server {} was started again but does not listen after phase {}", srv, pi));
                }
            }
            for (cn, i) in r.info.iter().enumerate() {
                if i.to == Some(addr) && i.accepted_at.map_or(false, |a| a > t && again.map_or(true, |b| a < b)) {
                    self.v("C18", format!("connection {} was accepted after the future of server {} was dropped", cn, srv));
                }
            }
        }
        if self.family() == "lifecycle" {
            for c in r.calls.iter().filter(|c| c.must && !c.cancels && c.expect != Expect::Narrow && is_err(c)) {
                if self.healthy(c) {
                    self.v("C18", format!("call {} failed although server was up: {:?}", c.id, c.out));
                    continue;
                }
                if let Some(w) = self.wires.get(&c.id).and_then(|w| w.first()) {
                    if r.info[w.0].accepted_at.is_some() {
                        self.v("C18", format!("call {} on connection {}, which the server had accepted, failed: {:?}", c.id, w.0, c.out));
                    }
                }
            }
            for (i, s) in r.snaps.iter().enumerate() {
                for c in r.calls.iter().filter(|c| c.phase == i && (c.out.is_none() || c.end_ev > s.end_ev)) {
                    self.v("C18", format!("call {} is still pending at the end of phase {}", c.id, i));
                }
            }
            for (s, t, m) in r.exits.clone() {
                self.v("C18", format!("server {} terminated at {} ms: {}", s, t / MS, short(&m)));
            }
        }
    }

    // ---- pool: exclusivity, reuse, size, eviction, failed connections (C09, C10, C11) ----
    fn pool(&mut self) {
        for cn in 0..self.r.info.len() {
            let cl = match self.client_of_conn(cn) {
                Some(c) => c,
                None => continue,
            };
            let i = &self.r.info[cn];
            let n = self.reqs[cn].msgs.len();
            let mut prev: Option<&CallRec> = None;
            for k in 0..n {
                let c = match self.call_of_msg(cn, k) {
                    Some(c) => c,
                    None => continue,
                };
                if c.client != cl {
                    continue;
                }
                if Some(c.to) != i.to {
                    self.v("C09", format!("call {} for {} used connection {} to {:?}", c.id, c.to, cn, i.to));
                }
                let start = self.reqs[cn].msgs[k].start;
                let wev = i.wmarks[0].iter().find(|m| m.1 > start).map(|m| m.2).unwrap_or(0);
                if wev < c.start_ev {
                    self.v("C09", format!("the request of call {} was sent before the call began", c.id));
                }
                if let Some(p) = prev {
                    match p.out {
                        Some(Outcome::Ok(_)) => {
                            if self.ends(p.id) {
                                self.v("C11", format!("connection {} was reused for call {} although the response to call {} announced its end", cn, c.id, p.id));
                            }
                            if wev < p.end_ev {
                                self.v("C09", format!("connection {} carried call {} before call {} on it was over", cn, c.id, p.id));
                            }
                        }
                        Some(Outcome::Err(_)) | Some(Outcome::Cancelled) | None => {
                            self.v(
                                "C11",
                                format!("connection {} was reused for call {} after call {} on it ended with {:?}", cn, c.id, p.id, p.out),
                            );
                            if p.out.is_none() || wev < p.end_ev {
                                self.v("C09", format!("connection {} carried calls {} and {} at once", cn, p.id, c.id));
                            }
                        }
                    }
                }
                prev = Some(c);
            }
        }
        for cl in 0..self.r.plan.clients.len() {
            let size = match &self.r.plan.clients[cl].pool {
                Some(p) => p.size.unwrap_or(1024),
                None => continue,
            };
            let drop_at = self.r.fired.iter().find(|(_, f)| matches!(f, Fault::DropPool { client } if *client == cl)).map(|f| f.0);
            for (pi, s) in self.r.snaps.iter().enumerate() {
                if !s.quiescent || self.r.calls.iter().any(|c| c.client == cl && c.phase <= pi && c.out.is_none()) {
                    continue;
                }
                let open: Vec<usize> = s.open[cl].clone();
                if open.len() > size {
                    self.v("C10", format!("client {} keeps {} idle connections after phase {}, the pool size is {}", cl, open.len(), pi, size));
                }
                if drop_at.map_or(false, |t| t < s.end) && !open.is_empty() {
                    self.v("C10", format!("the pool of client {} was dropped but connections {:?} are still open after phase {}", cl, open, pi));
                }
                for cn in open {
                    let last = (0..self.reqs[cn].msgs.len()).rev().find_map(|k| {
                        let c = self.call_of_msg(cn, k)?;
                        // only calls of phases so far
                        if c.phase <= pi { Some(c) } else { None }
                    });
                    match last {
                        Some(c) if is_ok(c) && !self.ends(c.id) => {}
                        Some(c) => self.v("C11", format!("connection {} is still open after phase {} although call {} on it ended with {:?}", cn, pi, c.id, c.out)),
                        None => {
                            let any_partial = self.reqs[cn].rest > 0;
                            self.v("C11", format!("connection {} is still open after phase {} although no call completed on it (partial request {})", cn, pi, any_partial));
                        }
                    }
                }
            }
            self.pool_model(cl, size);
            self.recovery(cl);
        }
    }
    /// The response to the call says that its connection ends with it.
    fn ends(&self, id: u64) -> bool {
        let (cn, k) = match self.wires.get(&id).and_then(|w| w.first()) {
            Some(&w) => w,
            None => return false,
        };
        let head = self.reqs[cn].msgs[k].method() == "HEAD";
        self.ress[cn].msgs.get(k).map_or(false, |m| m.closes(head))
    }
    /// Replays acquire and release commands in the order they were issued.
    fn pool_model(&mut self, cl: usize, size: usize) {
        let r = self.r;
        if r.calls.iter().any(|c| c.client == cl && !c.pooled) {
            return;
        }
        #[derive(Clone, Copy)]
        enum E {
            Acq(usize),
            Rel(usize),
            Snap(usize),
        }
        let mut evs: Vec<(u64, u8, E)> = vec![];
        for (i, c) in r.calls.iter().enumerate() {
            if c.client != cl {
                continue;
            }
            evs.push((c.start_ev, 1, E::Acq(i)));
            if c.out.is_some() {
                evs.push((c.end_ev, 0, E::Rel(i)));
            }
        }
        for (i, s) in r.snaps.iter().enumerate() {
            evs.push((s.end_ev, 2, E::Snap(i)));
        }
        evs.sort_by_key(|e| (e.0, e.1));
        let conn_of = |i: usize| -> Option<usize> { self.wires.get(&r.calls[i].id).and_then(|w| w.first()).map(|w| w.0) };
        let mut idle: Vec<usize> = vec![]; // oldest first
        let mut bad: Option<(&'static str, String)> = None;
        let mut held: Option<String> = None;
        let drop_at = r.fired.iter().find(|(_, f)| matches!(f, Fault::DropPool { client } if *client == cl)).map(|f| f.0);
        for (_, _, e) in evs {
            match e {
                E::Acq(i) => {
                    let c = &r.calls[i];
                    if drop_at.map_or(false, |t| t <= c.end || c.out.is_none()) {
                        return;
                    }
                    if !is_ok(c) {
                        // which connection it took cannot be told in every case
                        match (&c.out, conn_of(i)) {
                            (Some(Outcome::Err(_)), Some(cn)) => {
                                let had = idle.iter().position(|&x| x == cn);
                                if let Some(p) = had {
                                    idle.remove(p);
                                }
                                continue;
                            }
                            (Some(Outcome::Err(_)), None) if c.must && c.expect != Expect::Narrow && !c.cancels => {
                                // It got no connection: not even one that was idle, unless that one was no
                                // good any more.
                                let doubt = idle.iter().any(|&x| r.info[x].to == Some(c.to) && (r.info[x].rst_seen[0] || r.info[x].ended[0].is_some()));
                                if doubt {
                                    return;
                                }
                                continue;
                            }
                            _ => return,
                        }
                    }
                    let cn = match conn_of(i) {
                        Some(c) => c,
                        None => return,
                    };
                    if let Some(p) = idle.iter().position(|&x| x == cn) {
                        idle.remove(p);
                    } else {
                        let had = idle.iter().find(|&&x| r.info[x].to == Some(c.to));
                        if let Some(&x) = had {
                            bad = Some((
                                "C09",
                                format!("call {} opened connection {} to {} although connection {} to it was idle in the pool{}", c.id, cn, c.to, x,
                                    if r.info[x].client_closed_at.map_or(false, |t| t <= r.info[cn].dial_at) { " (it had been closed)" } else { "" }),
                            ));
                            break;
                        }
                    }
                }
                E::Rel(i) => {
                    let c = &r.calls[i];
                    if !is_ok(c) {
                        continue;
                    }
                    if let Some(cn) = conn_of(i).filter(|_| !self.ends(c.id)) {
                        idle.push(cn);
                        while idle.len() > size {
                            idle.remove(0);
                        }
                    }
                }
                E::Snap(k) => {
                    let s = &r.snaps[k];
                    if drop_at.map_or(false, |t| t < s.end) {
                        idle.clear();
                    }
                    if !s.quiescent || r.calls.iter().any(|c| c.client == cl && c.phase <= k && c.out.is_none()) {
                        continue;
                    }
                    let mut a: Vec<usize> = s.open[cl].clone();
                    let mut b = idle.clone();
                    a.sort();
                    b.sort();
                    if a != b && held.is_none() {
                        held = Some(format!("after phase {} the pool of client {} (size {}) holds connections {:?}; by least recent use it should hold {:?}", k, cl, size, a, b));
                    }
                }
            }
        }
        if let Some(m) = &held {
            self.v("C10", m.clone());
        }
        if let Some((p, m)) = bad {
            self.v(p, m.clone());
            if held.is_none() && m.ends_with("closed)") {
                self.v("C10", m);
            }
        }
    }
    /// Each stale idle connection costs at most one failed call.
    fn recovery(&mut self, cl: usize) {
        for (pi, ph) in self.r.plan.phases.iter().enumerate() {
            if !ph.recover || self.r.snaps.len() <= pi {
                continue;
            }
            let addrs: BTreeSet<_> = self.r.calls.iter().filter(|c| c.client == cl && c.phase == pi).map(|c| c.to).collect();
            for a in addrs {
                let stale = self.r.snaps[pi].open_before[cl]
                    .iter()
                    .filter(|&&c| self.r.info[c].to == Some(a))
                    .count();
                let failed: Vec<&CallRec> = self
                    .r
                    .calls
                    .iter()
                    .filter(|c| c.client == cl && c.phase == pi && c.to == a && c.must && c.expect != Expect::Narrow && !c.cancels && is_err(c))
                    .collect();
                if failed.len() > stale {
                    let m = format!(
                        "{} calls to {} failed after recovery with only {} idle connections from before: call {} with {:?}",
                        failed.len(), a, stale, failed.last().unwrap().id, failed.last().unwrap().out
                    );
                    self.v("C11", m.clone());
                    self.v("C14", m);
                }
            }
        }
    }

    /// By how much the schedule may have delayed something in the client (a crowd of calls on
    /// starved threads can keep it busy for a while); bounded, as a client that is always busy is
    /// not to escape.
    fn lag(&self, cl: usize) -> Nanos {
        self.r.lag.get(cl).map_or(0, |l| (*l).min(300 * MS))
    }

    // ---- suspension of addresses (C12) ----
    fn suspend(&mut self) {
        for cl in 0..self.r.plan.clients.len() {
            let slack = 20 * MS + self.lag(cl);
            let pp = match &self.r.plan.clients[cl].pool {
                Some(p) => p.clone(),
                None => continue,
            };
            let d = pp.suspend_ms.unwrap_or(60_000).min(1_000_000_000_000) * MS;
            let pid = self.r.client_pids[cl];
            let paused = self.r.plan.phases.iter().any(|p| p.faults.iter().any(|f| matches!(f.f, Fault::Pause { client: true, .. })));
            let dropped = self.r.fired.iter().any(|(_, f)| matches!(f, Fault::DropPool { client } if *client == cl));
            if dropped {
                continue;
            }
            let addrs: BTreeSet<_> = self.r.calls.iter().filter(|c| c.client == cl && c.pooled).map(|c| c.to).collect();
            for a in addrs {
                // attempts that failed or were given up, with the time of failure
                let dials: Vec<&mio::sim::ConnInfo> =
                    self.r.info.iter().filter(|i| i.client_proc == pid && i.to == Some(a)).collect();
                let fails: Vec<(Nanos, Nanos)> = dials
                    .iter()
                    .filter(|i| i.established_at.is_none())
                    .filter_map(|i| {
                        let t0 = i.failed.map(|f| f.0).or(i.client_closed_at)?;
                        // the caller noticed when its call ended
                        let cands: Vec<&CallRec> = self
                            .r
                            .calls
                            .iter()
                            .filter(|c| c.client == cl && c.pooled && c.to == a && is_err(c) && c.start <= i.dial_at && c.end + slack >= t0)
                            .collect();
                        if cands.is_empty() {
                            return None; // the call was dropped
                        }
                        let t1 = cands.iter().map(|c| c.end).max().unwrap();
                        Some((t0.min(t1), t1.max(t0)))
                    })
                    .collect();
                // attempts that may have been given up just when they succeeded, or whose connection
                // was reset before the client looked at it (connecting fails for it)
                let maybe: Vec<(Nanos, Nanos)> = dials
                    .iter()
                    .filter(|i| i.wrote[0].is_empty())
                    .filter_map(|i| match (i.established_at, i.client_closed_at) {
                        (Some(e), Some(c)) if c <= e + slack || i.rst_seen[0] => Some((e.min(c), e.max(c))),
                        _ => None,
                    })
                    .collect();
                let direct = self.r.calls.iter().any(|c| c.client == cl && !c.pooled && c.to == a);
                let cancels = self.r.calls.iter().any(|c| c.client == cl && c.to == a && c.cancels);
                for c in self.r.calls.iter().filter(|c| c.client == cl && c.pooled && c.to == a) {
                    if c.out.is_none() || c.cancels {
                        continue;
                    }
                    let own_dials: Vec<&&mio::sim::ConnInfo> =
                        dials.iter().filter(|i| i.dial_at >= c.start && i.dial_at <= c.end).collect();
                    let at_once = own_dials.iter().find(|i| i.dial_at <= c.start + slack);
                    // 1: no attempt while suspended
                    let inside = !cancels && !direct && fails.iter().any(|f| c.start > f.1 + slack && c.start + slack < f.0 + d);
                    if inside && !paused {
                        if is_ok(c) || self.wires.contains_key(&c.id) {
                            self.v("C12", format!("call {} to {} at {} ms was sent although the address is suspended (failures {:?}, duration {} ms)",
                                c.id, a, c.start / MS, fails.iter().map(|f| f.0 / MS).collect::<Vec<_>>(), d / MS));
                        } else if c.end - c.start > slack {
                            self.v("C12", format!("call {} to the suspended address {} failed only after {} ms", c.id, a, (c.end - c.start) / MS));
                        }
                        if !direct && !cancels {
                            if let Some(i) = at_once {
                                self.v(
                                    "C12",
                                    format!("call {} at {} ms led to a connection attempt to {} at {} ms although the address is suspended (failures {:?}, duration {} ms)",
                                        c.id, c.start / MS, a, i.dial_at / MS, fails.iter().map(|f| f.0 / MS).collect::<Vec<_>>(), d / MS),
                                );
                            }
                        }
                    }
                    // 2: otherwise an attempt is made
                    let near = fails.iter().chain(&maybe).any(|f| c.start + slack >= f.0 && c.start < f.1 + d + slack);
                    if is_err(c) && !near && own_dials.is_empty() && !self.wires.contains_key(&c.id) && !paused {
                        // no idle connection that could have failed under it
                        let idle = dials.iter().any(|i| {
                            i.established_at.map_or(false, |t| t <= c.start) && i.client_closed_at.map_or(true, |t| t >= c.start)
                        });
                        // or concurrently dialled connections of others
                        if !idle && c.must {
                            self.v(
                                "C12",
                                format!("call {} at {} ms failed without a connection attempt to {} which is not suspended (failures {:?}, duration {} ms): {:?}",
                                    c.id, c.start / MS, a, fails.iter().map(|f| f.0 / MS).collect::<Vec<_>>(), d / MS, c.out),
                            );
                        }
                    }
                }
            }
        }
    }

    // ---- connect timeout (C13) ----
    fn timeouts(&mut self) {
        for cl in 0..self.r.plan.clients.len() {
            let slack = 30 * MS + self.lag(cl);
            let pp = match &self.r.plan.clients[cl].pool {
                Some(p) => p.clone(),
                None => continue,
            };
            let paused = self.r.plan.phases.iter().any(|p| p.faults.iter().any(|f| matches!(f.f, Fault::Pause { client: true, .. })));
            let dropped = self.r.fired.iter().any(|(_, f)| matches!(f, Fault::DropPool { client } if *client == cl));
            if paused || dropped {
                continue;
            }
            let t = pp.timeout_ms.unwrap_or(1000).min(1_000_000_000_000) * MS;
            let pid = self.r.client_pids[cl];
            for i in self.r.info.iter().filter(|i| i.client_proc == pid) {
                let a = i.to.unwrap();
                let unsure = self
                    .r
                    .calls
                    .iter()
                    .any(|c| c.client == cl && c.to == a && (!c.pooled || (c.cancels && c.start <= i.dial_at)));
                if unsure {
                    continue;
                }
                let end = self.r.snaps.last().map_or(0, |s| s.end);
                if i.established_at.is_none() && i.failed.is_none() {
                    match i.client_closed_at {
                        Some(e) if e + slack < i.dial_at + t => self.v(
                            "C13",
                            format!("the attempt to connect to {} (connection {}) was given up after {} ms, the timeout is {} ms", a, i.id, (e - i.dial_at) / MS, t / MS),
                        ),
                        Some(e) if e > i.dial_at + t + slack => self.v(
                            "C13",
                            format!("the attempt to connect to {} (connection {}) was given up only after {} ms, the timeout is {} ms", a, i.id, (e - i.dial_at) / MS, t / MS),
                        ),
                        None if end > i.dial_at + t + slack => self.v(
                            "C13",
                            format!("the attempt to connect to {} (connection {}) is still pending after {} ms, the timeout is {} ms", a, i.id, (end - i.dial_at) / MS, t / MS),
                        ),
                        _ => {}
                    }
                }
                if let Some(e) = i.established_at.or(i.failed.map(|f| f.0)) {
                    if e > i.dial_at + t + slack {
                        self.v(
                            "C13",
                            format!("the attempt to connect to {} (connection {}) was still awaited after {} ms, the timeout is {} ms", a, i.id, (e - i.dial_at) / MS, t / MS),
                        );
                    }
                    // a connection established well before the timeout is used
                    let used = !i.wrote[0].is_empty();
                    if i.established_at.map_or(false, |e| e + slack < i.dial_at + t) && !used && !i.rst_seen[0] && i.ended[0].is_none() && end > i.dial_at + t + slack {
                        let must = self.r.calls.iter().all(|c| c.client != cl || c.must);
                        if must {
                            self.v("C13", format!("connection {} to {} was established after {} ms but never used", i.id, a, (e - i.dial_at) / MS));
                        }
                    }
                }
            }
            for c in self.r.calls.iter().filter(|c| c.client == cl && c.pooled && !c.cancels && is_err(c)) {
                if !self.wires.contains_key(&c.id) && c.end - c.start > t + slack {
                    self.v(
                        "C13",
                        format!("call {} to {} never got a connection but failed only after {} ms, the timeout is {} ms", c.id, c.to, (c.end - c.start) / MS, t / MS),
                    );
                }
            }
        }
    }

    // ---- answers of raw servers (C15, C04) ----
    fn raw_servers(&mut self) {
        for s in &self.r.served {
            let p = &self.r.plan.raws[s.raw];
            let rp = &p.conns[s.cplan.min(p.conns.len() - 1)].replies[s.reply];
            let c = match s.id.and_then(|i| self.r.by_id.get(&i)) {
                Some(&i) => &self.r.calls[i],
                None => continue,
            };
            let (want, or_err): (Option<&String>, bool) = match &rp.verdict {
                Verdict::Any => continue,
                Verdict::Value(v) => (Some(v), false),
                Verdict::ValueOrErr(v) => (Some(v), true),
                Verdict::Err => (None, true),
            };
            // a reset may have overtaken the response
            let lost = self.wires.get(&c.id).map_or(true, |w| {
                w.iter().any(|&(cn, _)| self.r.info[cn].arrived[1] < self.r.info[cn].wrote[1].len())
            });
            let or_err = or_err || lost;
            match (&c.out, want) {
                (Some(Outcome::Ok(v)), Some(w)) => {
                    if v != w {
                        let m = format!("call {} returned a value the response does not carry, {} -- response {:?}", c.id, diff(w, v), rp.bytes);
                        self.v("C15", m.clone());
                        self.v("C02", m);
                    }
                }
                (Some(Outcome::Ok(v)), None) => {
                    let m = format!("call {} succeeded with {} on an unacceptable response {:?}", c.id, short(v), rp.bytes);
                    self.v("C15", m.clone());
                    self.v("C04", m);
                }
                (Some(Outcome::Err(e)), Some(_)) if !or_err => {
                    let m = format!("call {} failed ({}) on a well-formed response {:?}", c.id, short(e), rp.bytes);
                    self.v("C15", m.clone());
                    self.v("C04", m);
                }
                _ => {}
            }
        }
    }
}

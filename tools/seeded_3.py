BUGS = []
def bug(**k): BUGS.append(k)

bug(id="suspend-whole-host", property="C12",
 needs="a failed connection attempt to one port of a host, then a call to another port of that host while the first is suspended",
 breaks="calls to a healthy address fail because another port of the same host is suspended",
 edits=[
  ("src/pool.rs", "    blacklist: HashMap<SocketAddr, Instant>,", "    blacklist: HashMap<::std::net::IpAddr, Instant>,"),
  ("src/pool.rs", "self.blacklist.remove(&addr)", "self.blacklist.remove(&addr.ip())"),
  ("src/pool.rs", "self.blacklist.insert(addr, suspended_at);", "self.blacklist.insert(addr.ip(), suspended_at);"),
  ("src/pool.rs", "self.blacklist.insert(addr, Instant::now());", "self.blacklist.insert(addr.ip(), Instant::now());"),
 ],
 main=r'''
fn main() {
    let good = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let dead = free_port();
    let c = client(RpcClientPool::with_pool_size(0));
    check(match c.echo(dead, req("x", 1)).wait(5000) { Out::Err(_) => true, _ => false }, "nobody listens there");
    std::thread::sleep(std::time::Duration::from_millis(100));
    check(match c.echo(good, req("x", 1)).wait(5000) { Out::Ok(_) => true, o => { println!("{:?}", o); false } }, "the other address is not affected");
}
''')

bug(id="timeout-on-whole-call", property="C13",
 needs="a handler that takes longer than the connect timeout of the pool, on a newly opened connection",
 breaks="the connect timeout goes on running after the connection is established and cuts off slow calls",
 edits=[
  ("src/pool.rs", "    phase: Phase<Done<TcpConnection, Error>, TimeoutAfter<miasht::client::Connect>>,\n}\nimpl PooledConnection {",
   "    timeout: Duration,\n    phase: Phase<Done<TcpConnection, Error>, TimeoutAfter<miasht::client::Connect>>,\n}\nimpl PooledConnection {"),
  ("src/pool.rs", "            on_error: None,\n            phase,\n", "            on_error: None,\n            timeout: Duration::from_secs(0),\n            phase,\n"),
  ("src/pool.rs", "                phase,\n                on_error: None,\n", "                phase,\n                timeout: self.connect_timeout,\n                on_error: None,\n"),
  ("src/pool.rs", "                phase,\n                on_error: Some(", "                phase,\n                timeout: self.connect_timeout,\n                on_error: Some("),
  ("src/pool.rs", "    phase: Phase<oneshot::Receiver<PooledConnection>, PooledConnection>,\n}", "    phase: Phase<oneshot::Receiver<PooledConnection>, PooledConnection>,\n    deadline: ::std::sync::Arc<::std::sync::Mutex<Option<::fibers::time::timer::Timeout>>>,\n}"),
  ("src/pool.rs", "                Phase::A(future) => Phase::B(future),\n                Phase::B(connection) => return",
   "                Phase::A(future) => {\n                    let timeout = ::fibers::time::timer::timeout(future.timeout);\n                    if future.on_error.is_some() {\n                        *self.deadline.lock().unwrap() = Some(timeout);\n                    }\n                    Phase::B(future)\n                }\n                Phase::B(connection) => return"),
  ("src/pool.rs", "        let phase = Phase::A(reply_rx);\n        AcquireConnection { phase }", "        let phase = Phase::A(reply_rx);\n        AcquireConnection { phase, deadline: Default::default() }"),
  ("src/pool.rs", "        let future = self.handle.acquire_connection(self.addr);\n", "        let future = self.handle.acquire_connection(self.addr);\n        let deadline = future.deadline.clone();\n"),
  ("src/pool.rs", "            inner,\n            addr: self.addr,\n", "            inner,\n            deadline,\n            addr: self.addr,\n"),
  ("src/pool.rs", "    inner: CallInner<P>,\n", "    inner: CallInner<P>,\n    deadline: ::std::sync::Arc<::std::sync::Mutex<Option<::fibers::time::timer::Timeout>>>,\n"),
  ("src/pool.rs", "            Ok(Async::Ready(response))\n        } else {\n            Ok(Async::NotReady)",
   "            Ok(Async::Ready(response))\n        } else {\n            if let Some(ref mut timeout) = *self.deadline.lock().unwrap() {\n                let expired = timeout.poll().map(|r| r.is_ready()).unwrap_or(true);\n                track_assert!(!expired, ErrorKind::Other, \"Timed out\");\n            }\n            Ok(Async::NotReady)"),
 ],
 main=r'''
use std::time::Duration;
fn main() {
    let a = serve(|b| {
        let mut h = EchoHandler::new("slow");
        h.delay = Duration::from_millis(1500);
        b.register(h, Echo).unwrap()
    });
    let mut p = RpcClientPool::new();
    p.set_connect_timeout(Duration::from_millis(500));
    let c = client(p);
    check(match c.echo(a, req("x", 1)).wait(10_000) { Out::Ok(_) => true, o => { println!("{:?}", o); false } }, "a slow handler is not cut off by the connect timeout");
}
''')

bug(id="no-content-body", property="C02",
 needs="a handler that answers 204 with a body, over a pooled connection that is used again",
 breaks="the body of the response is lost, and what is left of it is taken for the next response",
 edits=[("src/client.rs",
  "                    let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {",
  "                    let no_body = P::method() == HttpMethod::Head || response.status().code() == 204;\n                    let future: BoxFuture<_, _> = if no_body {")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let c = client(RpcClientPool::new());
    let r = c.echo_ok(a, req("x", 204));
    check(r.status == 204 && r.body == seen(&req("x", 204)).into_bytes(), "the response is the one the handler gave");
}
''')

bug(id="stream-registry", property="C17",
 needs="clients that reset their connection or send something malformed (those that close in order are forgotten)",
 breaks="the server keeps a handle of each connection for its list of open connections and never drops those that ended with an error: their sockets leak",
 edits=[
  ("src/server.rs", "pub struct RpcServer {\n    spawner", "pub struct RpcServer {\n    connections: Connections,\n    spawner"),
  ("src/server.rs", "/// RPC Server.\n", "/// The open connections.\ntype Connections =\n    ::std::sync::Arc<Mutex<::std::collections::HashMap<SocketAddr, TcpStream>>>;\n\n/// RPC Server.\n"),
  ("src/server.rs", "        RpcServer {\n            spawner", "        RpcServer {\n            connections: Default::default(),\n            spawner"),
  ("src/server.rs", "                    let connected = connected.then(|result| {\n", "                    let connections = self.connections.clone();\n                    let connected = connected.then(move |result| {\n"),
  ("src/server.rs", "                        let _ = stream.with_inner(|inner| inner.set_nodelay(true));\n", "                        let _ = stream.with_inner(|inner| inner.set_nodelay(true));\n                        connections.lock().unwrap().insert(addr, stream.clone());\n"),
  ("src/server.rs", "                    let future = HandleHttpRequest {\n", "                    let future = HandleHttpRequest {\n                        addr,\n                        connections: self.connections.clone(),\n"),
  ("src/server.rs", "struct HandleHttpRequest {\n", "struct HandleHttpRequest {\n    addr: SocketAddr,\n    connections: Connections,\n"),
  ("src/server.rs", "                Async::Ready(Phase::B(None)) => {\n", "                Async::Ready(Phase::B(None)) => {\n                    self.connections.lock().unwrap().remove(&self.addr);\n"),
 ],
 main=r'''
use std::io::Read;
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    // a connection that is closed in order is released
    let mut s = raw(a);
    send(&mut s, "PUT /echo/a/1 HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    check(read_msg(&mut s, false).is_some(), "the server answers");
    // one on which something malformed arrives is closed by the server
    let mut s = raw(a);
    send(&mut s, "this is not HTTP\r\n\r\n");
    let mut b = [0; 4096];
    let closed = loop {
        match s.read(&mut b) {
            Ok(0) => break true,
            Ok(_) => {}
            Err(e) => break e.kind() == std::io::ErrorKind::ConnectionReset,
        }
    };
    check(closed, "the server releases a connection that failed");
}
''')

bug(id="server-polls-connections", property="C20",
 needs="dropping the server's future while a handler is running",
 breaks="the server runs its connections itself instead of spawning them, so handlers in progress die with it",
 edits=[
  ("src/server.rs", "pub struct RpcServer {\n    spawner: BoxSpawn,", "pub struct RpcServer {\n    connections: Vec<HandleHttpRequest>,\n    _spawner: BoxSpawn,"),
  ("src/server.rs", "        RpcServer {\n            spawner: spawner.boxed(),", "        RpcServer {\n            connections: Vec::new(),\n            _spawner: spawner.boxed(),"),
  ("src/server.rs", "                Async::NotReady => return Ok(Async::NotReady),\n                Async::Ready(Phase::A(listener)) => {\n                    info!",
   "                Async::NotReady => {\n                    self.connections.retain_mut(|c| c.poll() == Ok(Async::NotReady));\n                    return Ok(Async::NotReady);\n                }\n                Async::Ready(Phase::A(listener)) => {\n                    info!"),
  ("src/server.rs", "                    self.spawner.spawn(future);\n", "                    self.connections.push(future);\n"),
 ],
 main=r'''
use fibers::{Executor, Spawn};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
#[derive(Clone)]
struct Slow(Arc<AtomicUsize>, Arc<AtomicUsize>);
impl htrpc::HandleRpc<Echo> for Slow {
    type Future = Box<dyn Future<Item = Res, Error = htrpc::types::NeverFail> + Send>;
    fn handle_rpc(self, _: Req) -> Self::Future {
        self.0.fetch_add(1, Ordering::SeqCst);
        let done = self.1;
        Box::new(fibers::time::timer::timeout(Duration::from_millis(800)).map(move |()| {
            done.fetch_add(1, Ordering::SeqCst);
            Res { status: 200, header: ResHeader { p: "x".to_string() }, body: vec![] }
        }).map_err(|_| unreachable!()))
    }
}
fn main() {
    let (started, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let h = Slow(started.clone(), done.clone());
    let addr = free_port();
    std::thread::spawn(move || {
        let mut b = htrpc::RpcServerBuilder::new(addr);
        b.register(h, Echo).unwrap();
        let ex = fibers::ThreadPoolExecutor::with_thread_count(2).unwrap();
        let server = b.start(ex.handle());
        // the server is dropped after a second
        let end = fibers::time::timer::timeout(Duration::from_millis(1000)).map_err(|_| ());
        ex.spawn(server.map_err(|_| ()).select(end).map(|_| ()).map_err(|_| ()));
        let _ = ex.run();
    });
    std::thread::sleep(Duration::from_millis(600));
    let mut s = raw(addr);
    send(&mut s, "PUT /echo/a/1 HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let answer = read_msg(&mut s, false);
    std::thread::sleep(Duration::from_millis(1000));
    check(started.load(Ordering::SeqCst) == 1, "the handler was started");
    check(done.load(Ordering::SeqCst) == 1, "the handler ran to its end although the server's future was dropped");
    check(answer.is_some(), "its request was answered");
}
''')

bug(id="header-percent", property="C19",
 needs="a header value that contains a percent sign, read by a peer other than htrpc",
 breaks="header values are percent-encoded on sending and decoded on receiving, which only htrpc's own peer undoes",
 edits=[
  ("src/serializers/http_header.rs", "    fn serialize_str(self, v: &str) -> Result<Self::Ok> {\n        track!(self.append(Cow::Borrowed(v)))", "    fn serialize_str(self, v: &str) -> Result<Self::Ok> {\n        let v = match self.key {\n            Some(_) => Cow::Owned(v.replace('%', \"%25\")),\n            None => Cow::Borrowed(v),\n        };\n        track!(self.append(v))"),
  ("src/deserializers/http_header.rs", "                    let _ = self.headers.next();\n                    Cow::Borrowed(v)",
   "                    let _ = self.headers.next();\n                    match std::str::from_utf8(v) {\n                        Ok(s) if s.contains(\"%25\") => Cow::Owned(s.replace(\"%25\", \"%\").into_bytes()),\n                        _ => Cow::Borrowed(v),\n                    }"),
 ],
 main=r'''
use std::sync::{Arc, Mutex};
fn main() {
    // round trip with htrpc's own server
    let a = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let c = client(RpcClientPool::new());
    let mk = || { let mut r = req("x", 200); r.header.h = Some("100%".to_string()); r };
    let r = c.echo_ok(a, mk());
    check(r.body == seen(&mk()).into_bytes(), "the handler receives the header");
    // and with a plain one
    let got = Arc::new(Mutex::new(String::new()));
    let g = got.clone();
    let a = raw_server(move |_, mut s| {
        if let Some((h, _)) = read_msg(&mut s, false) {
            *g.lock().unwrap() = h;
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
    });
    c.echo_ok(a, mk());
    let h = got.lock().unwrap().to_lowercase();
    check(h.lines().any(|l| l == "x-h: 100%" || l == "x-h:100%"), "another server reads the same header");
}
''')

bug(id="u64-as-i64", property="C01",
 needs="an unsigned 64-bit query value above i64::MAX",
 breaks="large unsigned numbers are sent as negative ones",
 edits=[("src/serializers/url_query.rs",
  "    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {\n        self.append(Cow::Owned(v.to_string()));\n        Ok(())",
  "    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {\n        track!(self.serialize_i64(v as i64))")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let c = client(RpcClientPool::new());
    for n in &[0, 1u64 << 40, (1 << 63) - 1, 1 << 63, !0] {
        let mk = || { let mut r = req("x", 200); r.query.n = Some(*n); r };
        let r = c.echo_ok(a, mk());
        check(r.body == seen(&mk()).into_bytes(), "the handler receives the number");
    }
}
''')

bug(id="head-sticky", property="C05",
 needs="a HEAD request followed by a request of another method on the same connection",
 breaks="after a HEAD request all responses of the connection lose their body",
 edits=[("src/server.rs",
  "                    self.method = request.method();\n",
  "                    if request.method() == HttpMethod::Head {\n                        self.method = HttpMethod::Head;\n                    }\n")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let mut s = raw(a);
    send(&mut s, "HEAD /nowhere HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    check(read_msg(&mut s, true).is_some(), "HEAD is answered");
    send(&mut s, "PUT /echo/a/200 HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let r = read_msg(&mut s, false);
    println!("{:?}", r);
    check(r.map_or(false, |r| r.0.starts_with("HTTP/1.1 200")), "the next request on the connection is answered with its body");
}
''')

bug(id="pool-size-zero", property="C10",
 needs="a pool of size zero",
 breaks="size zero is taken as unlimited: idle connections are kept",
 edits=[("src/pool.rs",
  "        while self.connections.len() > self.pool_size {",
  "        while self.pool_size > 0 && self.connections.len() > self.pool_size {")],
 main=r'''
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::Arc;
fn main() {
    let open = Arc::new(AtomicIsize::new(0));
    let o = open.clone();
    let a = raw_server(move |_, mut s| {
        o.fetch_add(1, Ordering::SeqCst);
        while let Some(_) = read_msg(&mut s, false) {
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
        o.fetch_sub(1, Ordering::SeqCst);
    });
    let c = client(RpcClientPool::with_pool_size(0));
    for i in 0..3 {
        c.echo_ok(a, req("x", i));
    }
    std::thread::sleep(std::time::Duration::from_millis(300));
    check(open.load(Ordering::SeqCst) == 0, "no idle connection is kept");
}
''')

bug(id="pool-waits-when-full", property="C21",
 needs="as many calls in flight as the pool's size (here stuck ones), and another call",
 breaks="the pool makes calls wait until a connection is returned instead of opening another one",
 edits=[
  ("src/pool.rs", "    connect_timeout: Duration,\n}\nimpl RpcClientPool {", "    connect_timeout: Duration,\n    in_use: usize,\n    waiting: ::std::collections::VecDeque<(SocketAddr, oneshot::Sender<PooledConnection>)>,\n}\nimpl RpcClientPool {"),
  ("src/pool.rs", "            connect_timeout: Duration::from_secs(1),", "            connect_timeout: Duration::from_secs(1),\n            in_use: 0,\n            waiting: Default::default(),"),
  ("src/pool.rs", "                let future = self.acquire_connection(addr);\n                let _ = reply.send(future);",
   "                if self.pool_size > 0 && self.in_use >= self.pool_size {\n                    self.waiting.push_back((addr, reply));\n                    return;\n                }\n                self.in_use += 1;\n                let future = self.acquire_connection(addr);\n                let _ = reply.send(future);"),
  ("src/pool.rs", "                self.release_connection(addr, connection);\n            }\n            Command", "                self.release_connection(addr, connection);\n                self.next_waiting();\n            }\n            Command"),
  ("src/pool.rs", "                self.blacklist.insert(addr, Instant::now());\n            }\n        }\n    }\n", "                self.blacklist.insert(addr, Instant::now());\n                self.next_waiting();\n            }\n        }\n    }\n    fn next_waiting(&mut self) {\n        self.in_use = self.in_use.saturating_sub(1);\n        if let Some((addr, reply)) = self.waiting.pop_front() {\n            self.in_use += 1;\n            let future = self.acquire_connection(addr);\n            let _ = reply.send(future);\n        }\n    }\n"),
 ],
 main=r'''
fn main() {
    let silent = raw_server(|_, mut s| {
        let _ = read_msg(&mut s, false);
        std::thread::sleep(std::time::Duration::from_secs(100));
    });
    let good = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let c = client(RpcClientPool::with_pool_size(2));
    let _a = c.echo(silent, req("x", 1));
    let _b = c.echo(silent, req("x", 2));
    std::thread::sleep(std::time::Duration::from_millis(200));
    check(match c.echo(good, req("x", 200)).wait(5000) { Out::Ok(_) => true, o => { println!("{:?}", o); false } }, "a call to a responsive server is not delayed");
}
''')

bug(id="bind-retry", property="C18",
 needs="starting a server on an address that is already in use (or cannot be bound)",
 breaks="the failure to bind is not reported; the server silently tries again for ever",
 edits=[
  ("src/server.rs", "            phase: Phase::A(fibers::net::TcpListener::bind(self.bind_addr)),\n        }\n", "            bind_addr: self.bind_addr,\n            bind_retry: None,\n            phase: Phase::A(fibers::net::TcpListener::bind(self.bind_addr)),\n        }\n"),
  ("src/server.rs", "    router: Router,\n    phase: Phase<\n        fibers", "    router: Router,\n    bind_addr: SocketAddr,\n    bind_retry: Option<timer::Timeout>,\n    phase: Phase<\n        fibers"),
  ("src/server.rs", "        loop {\n            let polled = match self.phase.poll() {\n", "        loop {\n            if let Some(mut retry) = self.bind_retry.take() {\n                if let Ok(Async::NotReady) = retry.poll() {\n                    self.bind_retry = Some(retry);\n                    return Ok(Async::NotReady);\n                }\n                self.phase = Phase::A(fibers::net::TcpListener::bind(self.bind_addr));\n            }\n            let polled = match self.phase.poll() {\n                Err(Phase::A(e)) => {\n                    warn!(self.logger, \"Failed to bind: {}\", e);\n                    self.bind_retry = Some(timer::timeout(Duration::from_millis(100)));\n                    continue;\n                }\n"),
  ("src/server.rs", "        RpcServer {\n            spawner: spawner.boxed(),\n", "        let spawner = spawner.boxed();\n        RpcServer {\n            spawner,\n"),
 ],
 main=r'''
use fibers::{Executor, Spawn};
use std::time::Duration;
fn main() {
    let taken = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = taken.local_addr().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = htrpc::RpcServerBuilder::new(addr);
        b.register(EchoHandler::new("g"), Echo).unwrap();
        let ex = fibers::ThreadPoolExecutor::with_thread_count(2).unwrap();
        let server = b.start(ex.handle());
        ex.spawn(server.then(move |r| { let _ = tx.send(r.is_err()); Ok(()) }));
        let _ = ex.run();
    });
    let r = rx.recv_timeout(Duration::from_secs(5));
    println!("{:?}", r);
    check(r == Ok(true), "the server reports that it could not bind its address");
}
''')


BUGS = []
def bug(**k): BUGS.append(k)

bug(id="pool-port-blind", property="C09",
 needs="two servers on the same IP address; an idle pooled connection to the higher port and none to the requested lower port",
 breaks="a call for one address is sent over a connection to another port of the same host",
 edits=[("src/pool.rs",
  "            .and_then(|id| if id.addr == addr { Some(id) } else { None })",
  "            .and_then(|id| if id.addr.ip() == addr.ip() { Some(id) } else { None })")],
 main=r'''
fn main() {
    let (mut lo, mut hi) = (free_port(), free_port());
    while lo == hi { hi = free_port(); }
    if lo.port() > hi.port() { std::mem::swap(&mut lo, &mut hi); }
    serve_at(lo, |b| b.register(EchoHandler::new("lo"), Echo).unwrap());
    serve_at(hi, |b| b.register(EchoHandler::new("hi"), Echo).unwrap());
    let c = client(RpcClientPool::new());
    check(c.echo_ok(hi, req("x", 1)).header.p == "hi", "the first server answers");
    std::thread::sleep(std::time::Duration::from_millis(100));
    check(c.echo_ok(lo, req("x", 2)).header.p == "lo", "a call for the lower port is answered by its server");
}
''')

bug(id="pool-lower-bound", property="C09",
 needs="a connection left idle while connections to another address are released as often as the pool is large, then a call to its address",
 breaks="an idle connection to the address is not found and a new one is opened",
 edits=[("src/pool.rs",
  "        let lower = ConnectionId::new(addr, 0);",
  "        // the pool cannot hold older ones\n        let lower = ConnectionId::new(addr, self.seq_no.saturating_sub(self.pool_size as u64));")],
 main=r'''
fn counting() -> (std::net::SocketAddr, std::sync::Arc<std::sync::atomic::AtomicUsize>) {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let m = n.clone();
    let a = raw_server(move |_, mut s| {
        m.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        while let Some(_) = read_msg(&mut s, false) {
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
    });
    (a, n)
}
fn main() {
    let ((a, na), (b, _)) = (counting(), counting());
    let c = client(RpcClientPool::with_pool_size(2));
    for x in &[a, b, b, b, b, a] {
        c.echo_ok(*x, req("x", 1));
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    check(na.load(std::sync::atomic::Ordering::SeqCst) == 1, "sequential calls reuse one connection");
}
''')

bug(id="pool-evict-newest", property="C10",
 needs="more calls in flight at once than the pool size, finishing one after another, and another call that looks at which connections were kept",
 breaks="the connection released last is closed instead of the least recently used one",
 edits=[("src/pool.rs",
  "        self.lru_queue.insert(id.seq_no, id.addr);\n        self.connections.insert(id, connection);\n        self.drop_exceeded_lru_connections();",
  "        if self.connections.len() == self.pool_size {\n            // No room.\n            return;\n        }\n        self.lru_queue.insert(id.seq_no, id.addr);\n        self.connections.insert(id, connection);\n        self.drop_exceeded_lru_connections();")],
 main=r'''
use std::sync::{Arc, Mutex};
fn main() {
    let closed = Arc::new(Mutex::new(vec![]));
    let cl = closed.clone();
    let a = raw_server(move |i, mut s| {
        while let Some((h, _)) = read_msg(&mut s, false) {
            let ms = if h.contains("/slow/") { 300 } else { 0 };
            std::thread::sleep(std::time::Duration::from_millis(ms));
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
        cl.lock().unwrap().push(i);
    });
    let c = client(RpcClientPool::with_pool_size(1));
    let slow = c.echo(a, req("slow", 1));
    std::thread::sleep(std::time::Duration::from_millis(100));
    c.echo_ok(a, req("fast", 1));
    check(slow.wait(5000) != Out::Hang, "both calls end");
    std::thread::sleep(std::time::Duration::from_millis(200));
    check(*closed.lock().unwrap() == vec![1], "the connection idle for longest (the second) was closed");
}
''')

bug(id="pool-size-per-addr", property="C10",
 needs="a pool used for more addresses than its size",
 breaks="the pool size limits each address on its own, so more idle connections than the size stay open",
 edits=[("src/pool.rs",
  "        while self.connections.len() > self.pool_size {\n            let id = self.lru_queue\n                .iter()\n",
  "        let addr = match self.lru_queue.values().last() {\n            Some(addr) => *addr,\n            None => return,\n        };\n        while self.lru_queue.values().filter(|a| **a == addr).count() > self.pool_size {\n            let id = self.lru_queue\n                .iter()\n                .filter(|&(_, a)| *a == addr)\n")],
 main=r'''
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::Arc;
fn main() {
    let open = Arc::new(AtomicIsize::new(0));
    let mk = |o: Arc<AtomicIsize>| raw_server(move |_, mut s| {
        o.fetch_add(1, Ordering::SeqCst);
        while let Some(_) = read_msg(&mut s, false) {
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
        o.fetch_sub(1, Ordering::SeqCst);
    });
    let addrs: Vec<_> = (0..4).map(|_| mk(open.clone())).collect();
    let c = client(RpcClientPool::with_pool_size(2));
    for a in &addrs {
        c.echo_ok(*a, req("x", 1));
    }
    std::thread::sleep(std::time::Duration::from_millis(300));
    check(open.load(Ordering::SeqCst) <= 2, "at most two idle connections");
}
''')

bug(id="pool-one-command", property="C14",
 needs="two commands reaching the pool's fiber before it runs (concurrent calls), the pool being spawned together with another future that waits (e.g. a shutdown signal)",
 breaks="the pool handles one command per wake-up; the others wait for the next event and their calls may hang",
 edits=[("src/pool.rs",
  "        while let Async::Ready(command) = self.command_rx.poll().expect(\"Never fails\") {",
  "        if let Async::Ready(command) = self.command_rx.poll().expect(\"Never fails\") {")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("a"), Echo).unwrap());
    // the pool runs together with a timer, e.g. one that ends it
    let pool = RpcClientPool::new();
    let handle = pool.handle();
    let c = client(RpcClientPool::new());
    let end = fibers::time::timer::timeout(std::time::Duration::from_secs(3600)).map_err(|_| ());
    fibers::Spawn::spawn(&c.handle, pool.select(end).map(|_| ()).map_err(|_| ()));
    let c = Client { handle: c.handle, pool: handle };
    for i in 0..30 {
        let ps: Vec<_> = (0..8).map(|_| c.echo(a, req("x", i))).collect();
        for p in ps {
            match p.wait(5000) {
                Out::Ok(_) => {}
                o => { println!("{:?}", o); check(false, "every concurrent call ends") }
            }
        }
    }
    check(true, "every concurrent call ends");
}
''')

bug(id="suspension-lifted-by-release", property="C12",
 needs="a call in flight on an established connection while a second connection attempt to the same address fails; the first call then succeeds within the suspension",
 breaks="the suspension of the address ends early, when an older call to it finishes",
 edits=[("src/pool.rs",
  "                self.release_connection(addr, connection);\n            }",
  "                // The address is alive.\n                self.blacklist.remove(&addr);\n                self.release_connection(addr, connection);\n            }")],
 main=r'''
use std::net::TcpListener;
use std::time::Duration;
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let t = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        drop(l); // refuses from now on
        let _ = read_msg(&mut s, false);
        rx.recv().unwrap();
        send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        // the connection must not be idle in the pool for the later calls
        s
    });
    let mut p = RpcClientPool::with_pool_size(0);
    p.set_suspended_duration(Duration::from_secs(30));
    let c = client(p);
    let first = c.echo(a, req("x", 1));
    std::thread::sleep(Duration::from_millis(200));
    let e = |o| match o { Out::Err(e) => e, o => panic!("{:?}", o) };
    e(c.echo(a, req("x", 2)).wait(10_000));
    std::thread::sleep(Duration::from_millis(50));
    check(e(c.echo(a, req("x", 3)).wait(10_000)).contains("unavailable"), "suspended after the failed attempt");
    tx.send(()).unwrap();
    let _ = t.join().unwrap();
    check(match first.wait(5000) { Out::Ok(_) => true, _ => false }, "the first call succeeds");
    std::thread::sleep(Duration::from_millis(50));
    check(e(c.echo(a, req("x", 4)).wait(10_000)).contains("unavailable"), "still suspended");
}
''')

bug(id="suspend-on-call-failure", property="C12",
 needs="a call that fails after its connection was established, then another call to the address",
 breaks="an address is suspended although connecting to it worked",
 edits=[("src/pool.rs",
  "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {",
  "        let result = self.inner.poll();\n        if result.is_err() {\n            let addr = self.addr;\n            let _ = self.handle.command_tx.send(Command::AddToBlacklist { addr });\n        }\n        if let Async::Ready((response, connection)) = track!(result)? {")],
 main=r'''
fn main() {
    let a = raw_server(|i, mut s| {
        while let Some(_) = read_msg(&mut s, false) {
            if i == 0 { return; }
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
    });
    let c = client(RpcClientPool::new());
    check(match c.echo(a, req("x", 1)).wait(5000) { Out::Err(_) => true, _ => false }, "the first call fails, its connection was closed");
    std::thread::sleep(std::time::Duration::from_millis(100));
    check(match c.echo(a, req("x", 2)).wait(5000) { Out::Ok(_) => true, o => { println!("{:?}", o); false } }, "the next call connects again");
}
''')

bug(id="timeout-whole-seconds", property="C13",
 needs="a connect timeout that is not a whole number of seconds and an address that does not answer",
 breaks="the fraction of the configured connect timeout is ignored (500 ms become 0, 1.5 s become 1 s)",
 edits=[("src/pool.rs",
  "                    .timeout_after(self.connect_timeout),",
  "                    .timeout_after(Duration::from_secs(self.connect_timeout.as_secs())),")],
 main=r'''
use std::time::{Duration, Instant};
fn main() {
    // a listener whose backlog is full does not answer
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let fill: Vec<_> = (0..400).map(|_| {
        std::net::TcpStream::connect_timeout(&a, Duration::from_millis(20))
    }).take_while(|r| r.is_ok()).collect();
    println!("{} connections fill the backlog", fill.len());
    let mut p = RpcClientPool::new();
    p.set_connect_timeout(Duration::from_millis(1800));
    let c = client(p);
    let t = Instant::now();
    let o = c.echo(a, req("x", 1)).wait(20_000);
    println!("{:?} after {:?}", o, t.elapsed());
    check(match o { Out::Err(_) => true, _ => false }, "the call fails");
    check(t.elapsed() >= Duration::from_millis(1700), "not before the timeout");
}
''')

bug(id="retry-after-failure", property="C03",
 needs="a reused pooled connection that is closed by the server after it executed the request but before the response",
 breaks="the request is sent a second time and executed twice",
 edits=[
  ("src/client.rs", "    pub request: Option<P::Request>,\n    pub phase", "    pub request: Option<P::Request>,\n    pub retry: Option<SocketAddr>,\n    pub phase"),
  ("src/client.rs", "            request: Some(request),\n            phase: Phase::A(Box::new(client", "            request: Some(request),\n            retry: None,\n            phase: Phase::A(Box::new(client"),
  ("src/client.rs", "            let next = match track!(self.phase.poll().map_err(Error::from))? {\n                Async::NotReady",
   "            let in_response = if let Phase::C(_) = self.phase { true } else { false };\n            let polled = match self.phase.poll().map_err(Error::from) {\n                Err(e) => {\n                    // The pooled connection was stale: uses a new one.\n                    match self.retry.take() {\n                        Some(addr) if in_response => {\n                            let connect = miasht::Client::new().connect(addr);\n                            self.phase = Phase::A(Box::new(connect.map_err(Error::from)));\n                            continue;\n                        }\n                        _ => return Err(track!(e)),\n                    }\n                }\n                Ok(polled) => polled,\n            };\n            let next = match polled {\n                Async::NotReady"),
  ("src/client.rs", "                    let mut rpc_request = self.request.take().expect(\"Never fail\");", "                    let rpc_request = self.request.as_mut().expect(\"Never fail\");"),
  ("src/pool.rs", "            request: Some(request),\n", "            request: Some(request),\n            retry: Some(self.addr),\n"),
 ],
 main=r'''
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let a = raw_server(move |i, mut s| {
        while let Some((h, _)) = read_msg(&mut s, false) {
            if h.contains("/pay/") {
                m.fetch_add(1, Ordering::SeqCst);
                if i == 0 { return; } // executed, but the response is lost
            }
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: r\r\nContent-Length: 0\r\n\r\n");
        }
    });
    let c = client(RpcClientPool::new());
    c.echo_ok(a, req("x", 1));
    std::thread::sleep(std::time::Duration::from_millis(100));
    println!("{:?}", c.echo(a, req("pay", 1)).wait(10_000));
    check(n.load(Ordering::SeqCst) == 1, "the request was executed once");
}
''')

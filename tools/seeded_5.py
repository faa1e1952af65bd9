BUGS = []
def bug(**k): BUGS.append(k)

bug(id="handler-turnstile", property="C16",
 needs="a server with several threads and a handler that works for a while before it returns its future, called over two connections at the same time",
 breaks="handlers enter one at a time (a lock is held while a handler's own code runs), so a request on another connection and thread waits for it",
 edits=[
  ("src/server.rs", "                    handler\n                        .handle_rpc(rpc_request)\n", "                    enter(handler, rpc_request)\n"),
  ("src/server.rs", "/// RPC Server.\npub struct RpcServer {", """/// Invokes the handler (the requests enter the handlers one by one).
fn enter<P: Procedure, H: HandleRpc<P>>(handler: H, request: P::Request) -> H::Future {
    static TURNSTILE: Mutex<()> = Mutex::new(());
    let _turn = TURNSTILE.lock();
    handler.handle_rpc(request)
}

/// RPC Server.
pub struct RpcServer {"""),
 ],
 main=r'''
use futures::Future;
use htrpc::types::NeverFail;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
#[derive(Clone)]
struct Meet(Arc<(Mutex<(usize, bool)>, Condvar)>);
impl htrpc::HandleRpc<Echo> for Meet {
    type Future = Box<dyn Future<Item = Res, Error = NeverFail> + Send>;
    fn handle_rpc(self, _: Req) -> Self::Future {
        // both requests are in the handler at the same time
        let end = Instant::now() + Duration::from_secs(4);
        let mut g = (self.0).0.lock().unwrap();
        g.0 += 1;
        if g.0 == 2 {
            g.1 = true;
        }
        (self.0).1.notify_all();
        while !g.1 && Instant::now() < end {
            g = (self.0).1.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
        }
        g.0 -= 1;
        let status = if g.1 { 200 } else { 503 };
        Box::new(futures::finished(Res { status, header: ResHeader { p: "a".to_string() }, body: vec![] }))
    }
}
fn main() {
    let m = Meet(Arc::new((Mutex::new((0, false)), Condvar::new())));
    let n = m.clone();
    let a = serve(move |b| b.register(n, Echo).unwrap());
    let c = client(RpcClientPool::new());
    // connections are given to the threads of the server in turn
    for _ in 0..4 {
        let calls: Vec<_> = (0..2).map(|_| c.echo(a, req("x", 1))).collect();
        let ok = calls.into_iter().all(|p| match p.wait(20_000) { Out::Ok(r) => r.status == 200, _ => false });
        if ok {
            return;
        }
    }
    check(false, "two connections on two threads are handled at the same time");
}
''')

bug(id="cancel-suspends", property="C12",
 needs="a pooled call that is abandoned while its connection is still being established, and another call to that address soon afterwards",
 breaks="an abandoned connection attempt counts as failed and suspends the address",
 edits=[
  ("src/pool.rs", "            Ok(Async::Ready(Phase::B(connection))) => Ok(Async::Ready(connection)),\n            Ok(Async::Ready(_)) => unreachable!(),",
   "            Ok(Async::Ready(Phase::B(connection))) => {\n                self.on_error = None;\n                Ok(Async::Ready(connection))\n            }\n            Ok(Async::Ready(_)) => unreachable!(),"),
  ("src/pool.rs", "impl fmt::Debug for PooledConnection {", """impl Drop for PooledConnection {
    fn drop(&mut self) {
        if let Some((addr, tx)) = self.on_error.take() {
            let _ = tx.send(Command::AddToBlacklist { addr });
        }
    }
}
impl fmt::Debug for PooledConnection {"""),
 ],
 main=r'''
use fibers::Spawn;
use futures::Future;
use std::time::Duration;
fn main() {
    // a listener whose backlog is full does not answer
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let fill: Vec<_> = (0..9000).map(|_| {
        std::net::TcpStream::connect_timeout(&a, Duration::from_millis(20))
    }).take_while(|r| r.is_ok()).collect();
    println!("{} connections fill the backlog", fill.len());
    let mut p = RpcClientPool::new();
    p.set_connect_timeout(Duration::from_secs(60));
    let c = client(p);
    let call = c.pool.client(a).call::<Echo>(req("x", 1)).map(|_| ()).map_err(|_| ());
    let patience = fibers::time::timer::timeout(Duration::from_millis(300)).map_err(|_| ());
    let (tx, rx) = std::sync::mpsc::channel();
    c.handle.spawn(call.select(patience).then(move |r| {
        drop(r); // gives up the call
        let _ = tx.send(());
        Ok(())
    }));
    rx.recv().unwrap();
    drop(fill);
    std::thread::spawn(move || loop {
        let mut s = l.accept().unwrap().0;
        std::thread::spawn(move || {
            while let Some(_) = read_msg(&mut s, false) {
                send(&mut s, "HTTP/1.1 200 OK\r\nx-p: a\r\nContent-Length: 1\r\n\r\nz");
            }
        });
    });
    std::thread::sleep(Duration::from_millis(500));
    let out = c.echo(a, req("x", 1)).wait(20_000);
    println!("{:?}", out);
    check(match out { Out::Ok(_) => true, _ => false }, "an abandoned call does not suspend the address");
}
''')

bug(id="suspension-table-reset", property="C12",
 needs="more than 64 suspended addresses at a time",
 breaks="the table of suspended addresses is emptied when it has grown, so addresses are tried again before their time",
 edits=[("src/pool.rs", "            Command::AddToBlacklist { addr } => {\n",
  "            Command::AddToBlacklist { addr } => {\n                if self.blacklist.len() >= 64 {\n                    self.blacklist.clear();\n                }\n")],
 main=r'''
fn main() {
    let dead: Vec<_> = (0..80).map(|_| free_port()).collect();
    let first = dead[0];
    let c = client(RpcClientPool::new());
    for a in dead {
        check(match c.echo(a, req("x", 1)).wait(5000) { Out::Err(_) => true, _ => false }, "nobody listens there");
    }
    // now somebody does, but the address is suspended for a minute
    let l = std::net::TcpListener::bind(first).unwrap();
    l.set_nonblocking(true).unwrap();
    let out = c.echo(first, req("x", 1)).wait(1000);
    check(match out { Out::Err(_) => true, _ => false }, "the call fails quickly");
    check(l.accept().is_err(), "without an attempt to connect");
}
''')

bug(id="keepalive-limit", property="C05",
 needs="more than 5000 requests over one connection",
 breaks="the server closes a connection after 5000 requests, without answering the next one and without announcing it",
 edits=[
  ("src/server.rs", "    method: HttpMethod,\n}\nimpl HandleHttpRequest {", "    method: HttpMethod,\n    handled: u32,\n}\nimpl HandleHttpRequest {"),
  ("src/server.rs", "                        method: HttpMethod::Get, // Dummy\n", "                        method: HttpMethod::Get, // Dummy\n                        handled: 0,\n"),
  ("src/server.rs", "                    self.method = request.method();\n", "                    if self.handled >= 5000 {\n                        return Ok(Async::Ready(()));\n                    }\n                    self.handled += 1;\n                    self.method = request.method();\n"),
 ],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("a"), Echo).unwrap());
    let mut s = raw(a);
    for i in 0..5100 {
        send(&mut s, "GET /nowhere HTTP/1.1\r\nHost: x\r\n\r\n");
        check(read_msg(&mut s, false).is_some(), &format!("request {} is answered", i));
    }
}
''')

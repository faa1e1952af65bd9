BUGS = []
def bug(**k): BUGS.append(k)

SLOT = "::std::sync::Arc<::std::sync::Mutex<Option<Connection<TcpStream>>>>"
bug(id="direct-client-cache", property="C17",
 needs="an RpcClient that outlives its calls, and a look at the connections its server holds after the call is over",
 breaks="RpcClient keeps the connection of its last call for the next one, so it stays open for as long as the client value lives",
 edits=[
  ("src/client.rs", "pub struct RpcClient {\n    server: SocketAddr,\n}", "pub struct RpcClient {\n    server: SocketAddr,\n    last: %s,\n}" % SLOT),
  ("src/client.rs", "        RpcClient { server }", "        RpcClient {\n            server,\n            last: Default::default(),\n        }"),
  ("src/client.rs", "            phase: Phase::A(Box::new(client.connect(self.server).map_err(Error::from))),\n        });",
   "            phase: Phase::A(match self.last.lock().unwrap().take() {\n                Some(connection) => Box::new(futures::finished(connection)),\n                None => Box::new(client.connect(self.server).map_err(Error::from)),\n            }),\n        }, self.last.clone());"),
  ("src/client.rs", "pub struct Call<P>(CallInner<P>)", "pub struct Call<P>(CallInner<P>, %s)" % SLOT),
  ("src/client.rs", "Async::Ready((response, _)) = track!(self.0.poll())? {", "Async::Ready((response, connection)) = track!(self.0.poll())? {\n            *self.1.lock().unwrap() = connection;"),
 ],
 main=r'''
use std::io::Read;
use std::sync::mpsc::channel;
fn main() {
    let (tx, rx) = channel();
    let tx = std::sync::Mutex::new(tx);
    let a = raw_server(move |_, mut s| {
        let tx = tx.lock().unwrap().clone();
        read_msg(&mut s, false).unwrap();
        send(&mut s, "HTTP/1.1 200 OK\r\nx-p: a\r\nContent-Length: 1\r\n\r\nz");
        s.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap();
        // the client closes the connection when the call is over
        let _ = tx.send(match s.read(&mut [0]) { Ok(0) => true, _ => false });
    });
    let c = client(RpcClientPool::new());
    let mut direct = htrpc::RpcClient::new(a);
    check(match c.go(direct.call::<Echo>(req("x", 1))).wait(5000) { Out::Ok(_) => true, _ => false }, "the call succeeds");
    check(rx.recv().unwrap(), "its connection is closed though the client value lives on");
    drop(direct);
}
''')

bug(id="pool-per-address-cap", property="C09",
 needs="more than eight calls to one address at a time, and as many again once they have finished",
 breaks="the pool keeps at most eight idle connections to an address, so calls open new ones although the pool has room",
 edits=[("src/pool.rs", "        self.connections.insert(id, connection);\n",
  "        let first = ConnectionId::new(addr, 0);\n        let idle = self.connections.range(first..id).count();\n        if idle < 8 {\n            self.connections.insert(id, connection);\n        } else {\n            self.lru_queue.remove(&id.seq_no);\n        }\n")],
 main=r'''
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
fn main() {
    let accepted = Arc::new(AtomicUsize::new(0));
    let n = accepted.clone();
    let a = raw_server(move |_, mut s| {
        n.fetch_add(1, Ordering::SeqCst);
        while let Some(_) = read_msg(&mut s, false) {
            std::thread::sleep(std::time::Duration::from_millis(700));
            send(&mut s, "HTTP/1.1 200 OK\r\nx-p: a\r\nContent-Length: 1\r\n\r\nz");
        }
    });
    let c = client(RpcClientPool::new());
    for _ in 0..2 {
        let calls: Vec<_> = (0..12).map(|_| c.echo(a, req("x", 1))).collect();
        for p in calls {
            check(match p.wait(10_000) { Out::Ok(_) => true, _ => false }, "the call succeeds");
        }
        std::thread::sleep(std::time::Duration::from_millis(300));
    }
    check(accepted.load(Ordering::SeqCst) == 12, "the second round uses the connections of the first");
}
''')

bug(id="handler-deadline", property="C20",
 needs="a handler that takes longer than ten seconds",
 breaks="the server gives up a handler after ten seconds: it is dropped half way and its caller gets no response",
 edits=[("src/server.rs", "                                Ok(handler) => handler(url, request),",
  "                                Ok(handler) => {\n                                    let deadline = timer::timeout(Duration::from_secs(10));\n                                    let future = handler(url, request).select2(deadline).then(|r| match r {\n                                        Ok(futures::future::Either::A((response, _))) => Ok(response),\n                                        Err(futures::future::Either::A((e, _))) => Err(e),\n                                        _ => Err(ErrorKind::Other.cause(\"Too slow\").into()),\n                                    });\n                                    Box::new(future)\n                                }")],
 main=r'''
use std::time::Duration;
fn main() {
    let a = serve(|b| {
        let mut h = EchoHandler::new("slow");
        h.delay = Duration::from_secs(12);
        b.register(h, Echo).unwrap()
    });
    let c = client(RpcClientPool::new());
    check(match c.echo(a, req("x", 1)).wait(30_000) { Out::Ok(_) => true, o => { println!("{:?}", o); false } }, "a slow handler is run to its end");
}
''')

bug(id="server-max-clients", property="C08",
 needs="a hundred clients which connect and stay, and one more",
 breaks="the server drops the connections beyond the hundredth open one, so idle clients lock the others out",
 edits=[
  ("src/server.rs", "struct HandleHttpRequest {\n", "struct HandleHttpRequest {\n    _token: ::std::sync::Arc<()>,\n"),
  ("src/server.rs", "                    let future = HandleHttpRequest {\n", "                    let future = HandleHttpRequest {\n                        _token: self.token.clone(),\n"),
  ("src/server.rs", "                    self.spawner.spawn(future);", "                    if ::std::sync::Arc::strong_count(&self.token) <= 101 {\n                        self.spawner.spawn(future);\n                    }"),
  ("src/server.rs", "pub struct RpcServer {\n    spawner", "pub struct RpcServer {\n    token: ::std::sync::Arc<()>,\n    spawner"),
  ("src/server.rs", "        RpcServer {\n            spawner", "        RpcServer {\n            token: Default::default(),\n            spawner"),
 ],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("g"), Echo).unwrap());
    let idle: Vec<_> = (0..150).map(|_| raw(a)).collect();
    std::thread::sleep(std::time::Duration::from_millis(500));
    let c = client(RpcClientPool::new());
    check(match c.echo(a, req("x", 1)).wait(10_000) { Out::Ok(_) => true, o => { println!("{:?}", o); false } }, "idle clients do not lock the others out");
    drop(idle);
}
''')

bug(id="status-symmetric", property="C19",
 needs="a peer that is not htrpc, and a procedure that answers 423 or 424 by name",
 breaks="both sides take 423 for FailedDependency and 424 for Locked: they understand each other, but nobody else does",
 edits=[
  ("src/serializers/rpc_response.rs", '        "Locked" => HttpStatus::Locked,\n        "FailedDependency" => HttpStatus::FailedDependency,\n', '        "Locked" => HttpStatus::FailedDependency,\n        "FailedDependency" => HttpStatus::Locked,\n'),
  ("src/deserializers/rpc_response.rs", '        423 => "Locked",\n        424 => "FailedDependency",\n', '        424 => "Locked",\n        423 => "FailedDependency",\n'),
 ],
 main=r'''
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{HandleRpc, Procedure, RpcRequest, RpcResponse};
struct Get;
#[derive(Debug, serde_derive::Serialize, serde_derive::Deserialize)]
struct GetReq {}
impl RpcRequest for GetReq {
    fn body(&mut self) -> Vec<u8> {
        vec![]
    }
    fn read_body(self, body: htrpc::BodyReader) -> htrpc::ReadBody<Self> {
        Box::new(futures::future::ok((body, self)))
    }
}
#[derive(Debug, serde_derive::Serialize, serde_derive::Deserialize)]
enum GetRes {
    Locked {},
}
impl RpcResponse for GetRes {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(vec![])
    }
    fn set_body(&mut self, _: Vec<u8>) {}
}
impl Procedure for Get {
    type Request = GetReq;
    type Response = GetRes;
    fn method() -> HttpMethod {
        HttpMethod::Get
    }
    fn entry_point() -> EntryPoint {
        static S: &[PathSegment] = &[PathSegment::Val("get")];
        EntryPoint::new(S)
    }
}
#[derive(Clone)]
struct H;
impl HandleRpc<Get> for H {
    type Future = futures::future::FutureResult<GetRes, NeverFail>;
    fn handle_rpc(self, _: GetReq) -> Self::Future {
        futures::future::ok(GetRes::Locked {})
    }
}
fn main() {
    let a = serve(|b| b.register(H, Get).unwrap());
    let mut s = raw(a);
    send(&mut s, "GET /get HTTP/1.1\r\nHost: x\r\n\r\n");
    let (head, _) = read_msg(&mut s, false).unwrap();
    check(head.starts_with("HTTP/1.1 423 "), "Locked is 423");
}
''')

bug(id="bool-digits", property="C07",
 needs="a boolean query field given as 0 or 1 by a client that is not htrpc",
 breaks="a query value that is no boolean is taken for one and the handler runs, instead of a 400",
 edits=[("src/deserializers/url_query.rs", "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_bool(v))",
   "        let v = match v.as_ref() {\n            \"0\" => false,\n            \"1\" => true,\n            _ => track!(parse_cow_str(v))?,\n        };\n        track!(visitor.visit_bool(v))")],
 main=r'''
fn main() {
    let h = EchoHandler::new("g");
    let n = h.count.clone();
    let a = serve(move |b| b.register(h, Echo).unwrap());
    let mut s = raw(a);
    send(&mut s, "PUT /echo/x/1?b=true HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n");
    check(read_msg(&mut s, false).unwrap().0.starts_with("HTTP/1.1 200 "), "true is a boolean");
    send(&mut s, "PUT /echo/x/1?b=1 HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n");
    check(read_msg(&mut s, false).unwrap().0.starts_with("HTTP/1.1 400 "), "1 is none");
    check(n.load(std::sync::atomic::Ordering::SeqCst) == 1, "the handler has run once");
}
''')

bug(id="stop-cuts-connections", property="C18",
 needs="a connection that is open when the server is dropped, and a request on it afterwards",
 breaks="dropping the server makes its open connections end instead of being served on",
 edits=[
  ("src/server.rs", "struct HandleHttpRequest {\n", "struct HandleHttpRequest {\n    server: ::std::sync::Weak<()>,\n"),
  ("src/server.rs", "                    let future = HandleHttpRequest {\n", "                    let future = HandleHttpRequest {\n                        server: ::std::sync::Arc::downgrade(&self.alive),\n"),
  ("src/server.rs", "                Async::Ready(Phase::B(Some(request))) => {\n", "                Async::Ready(Phase::B(Some(request))) => {\n                    if self.server.upgrade().is_none() {\n                        return Ok(Async::Ready(()));\n                    }\n"),
  ("src/server.rs", "pub struct RpcServer {\n    spawner", "pub struct RpcServer {\n    alive: ::std::sync::Arc<()>,\n    spawner"),
  ("src/server.rs", "        RpcServer {\n            spawner", "        RpcServer {\n            alive: Default::default(),\n            spawner"),
 ],
 main=r'''
use fibers::{Executor, Spawn, ThreadPoolExecutor};
use htrpc::RpcServerBuilder;
fn main() {
    let a = free_port();
    let (stop, stopped) = fibers::sync::oneshot::channel::<()>();
    std::thread::spawn(move || {
        let mut b = RpcServerBuilder::new(a);
        b.register(EchoHandler::new("g"), Echo).unwrap();
        let ex = ThreadPoolExecutor::with_thread_count(2).unwrap();
        let server = b.start(ex.handle());
        ex.spawn(server.map_err(|_| ()).select(stopped.map_err(|_| ())).map(|_| ()).map_err(|_| ()));
        let _ = ex.run();
    });
    for _ in 0..200 {
        if std::net::TcpStream::connect(a).is_ok() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    let mut s = raw(a);
    let m = "PUT /echo/x/1 HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n";
    send(&mut s, m);
    check(read_msg(&mut s, false).is_some(), "served");
    stop.send(()).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(500));
    check(std::net::TcpStream::connect(a).is_err(), "the server is gone");
    send(&mut s, m);
    check(read_msg(&mut s, false).is_some(), "the open connection is still served");
}
''')

bug(id="unknown-status-panic", property="C15",
 needs="a response with a status code that the deserializer has no name for, to a procedure whose response is an enum",
 breaks="the client call panics instead of failing",
 edits=[("src/deserializers/rpc_response.rs", '        _ => track_panic!(ErrorKind::Invalid, "Unknown HTTP status code: {}", code),', '        _ => unreachable!("Unknown HTTP status code: {}", code),')],
 main=r'''
use htrpc::types::{EntryPoint, HttpMethod, PathSegment};
use htrpc::{Procedure, RpcRequest, RpcResponse};
struct Get;
#[derive(Debug, serde_derive::Serialize, serde_derive::Deserialize)]
struct GetReq {}
impl RpcRequest for GetReq {
    fn body(&mut self) -> Vec<u8> {
        vec![]
    }
    fn read_body(self, body: htrpc::BodyReader) -> htrpc::ReadBody<Self> {
        Box::new(futures::future::ok((body, self)))
    }
}
#[derive(Debug, serde_derive::Serialize, serde_derive::Deserialize)]
enum GetRes {
    Ok {},
    NotFound {},
}
impl RpcResponse for GetRes {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(vec![])
    }
    fn set_body(&mut self, _: Vec<u8>) {}
}
impl Procedure for Get {
    type Request = GetReq;
    type Response = GetRes;
    fn method() -> HttpMethod {
        HttpMethod::Get
    }
    fn entry_point() -> EntryPoint {
        static S: &[PathSegment] = &[PathSegment::Val("get")];
        EntryPoint::new(S)
    }
}
fn main() {
    for code in vec![200, 404, 425, 428, 429, 431, 499, 511, 599, 600, 799, 999] {
        let a = raw_server(move |_, mut s| {
            read_msg(&mut s, false);
            send(&mut s, &format!("HTTP/1.1 {} Something\r\nContent-Length: 0\r\n\r\n", code));
        });
        let c = client(RpcClientPool::new());
        let o = c.go(c.pool.client(a).call::<Get>(GetReq {})).wait(5000);
        println!("{} {:?}", code, o);
        check(match o { Out::Ok(_) => code == 200 || code == 404, Out::Err(_) => true, _ => false }, "the call gives a result");
    }
}
''')

bug(id="reset-is-the-end", property="C04",
 needs="a response whose body is chunked or ends with the connection, and a reset of the connection within it",
 breaks="the client takes a reset within the body for the end of the body and returns the part it has",
 edits=[("src/client.rs", "                            .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))\n",
  """                            .and_then(|res| {
                                use futures::future::{loop_fn, Loop};
                                use handy_async::io::AsyncRead;
                                loop_fn((res, Vec::new()), |(res, mut body)| {
                                    res.async_read(vec![0; 4096]).then(move |result| match result {
                                        Ok((res, _, 0)) => Ok(Loop::Break((res, body))),
                                        Ok((res, buf, size)) => {
                                            body.extend_from_slice(&buf[..size]);
                                            Ok(Loop::Continue((res, body)))
                                        }
                                        Err(e) => {
                                            let ((res, _), e) = e.unwrap();
                                            if e.kind() == ::std::io::ErrorKind::ConnectionReset {
                                                Ok(Loop::Break((res, body)))
                                            } else {
                                                Err(track!(miasht::Error::from(e)))
                                            }
                                        }
                                    })
                                })
                            })
""")],
 main=r'''
extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
}
fn main() {
    for how in vec!["", "Transfer-Encoding: chunked\r\n"] {
        let a = raw_server(move |_, mut s| {
            use std::os::unix::io::AsRawFd;
            read_msg(&mut s, false);
            let body = if how == "" { "half of the" } else { "5\r\nhello\r\n5\r\nwo" };
            send(&mut s, &format!("HTTP/1.1 200 OK\r\nx-p: a\r\n{}\r\n{}", how, body));
            std::thread::sleep(std::time::Duration::from_millis(300));
            // SO_LINGER with 0 s: closing resets the connection
            let linger = [1i32, 0];
            unsafe { setsockopt(s.as_raw_fd(), 1, 13, linger.as_ptr(), 8) };
        });
        let c = client(RpcClientPool::new());
        check(match c.echo(a, req("x", 1)).wait(5000) { Out::Err(_) => true, o => { println!("{:?}", o); false } }, "a response cut off by a reset is not delivered");
    }
}
''')

//! Helpers for the demonstrations: a procedure, a server on a loopback port, raw HTTP clients and servers.
#![allow(dead_code)]
use fibers::{Executor, Spawn, ThreadPoolExecutor};
pub use futures::Future;
use miasht::builtin::futures::FutureExt;
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, Error, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse, RpcServerBuilder};
pub use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use serde_derive::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::Arc;
use std::time::Duration;

/// PUT /echo/{0}/{1}?q=..&n=..  header x-h, body -> Res
pub struct Echo;
#[derive(Debug, Serialize, Deserialize)]
pub struct Req {
    pub path: (String, u32),
    pub query: Query,
    pub header: Header,
    #[serde(skip)]
    pub body: Vec<u8>,
}
#[derive(Debug, Serialize, Deserialize, Default, Clone, PartialEq)]
pub struct Query {
    pub q: Option<String>,
    pub n: Option<u64>,
    pub b: Option<bool>,
}
#[derive(Debug, Serialize, Deserialize, Default, Clone, PartialEq)]
pub struct Header {
    #[serde(rename = "x-h")]
    pub h: Option<String>,
}
impl RpcRequest for Req {
    fn body(&mut self) -> Vec<u8> {
        std::mem::replace(&mut self.body, vec![])
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map_err(Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
#[derive(Debug, Serialize, Deserialize, Clone, PartialEq)]
pub struct Res {
    pub status: u16,
    pub header: ResHeader,
    #[serde(skip)]
    pub body: Vec<u8>,
}
#[derive(Debug, Serialize, Deserialize, Clone, PartialEq)]
pub struct ResHeader {
    #[serde(rename = "x-p")]
    pub p: String,
}
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(self.body.clone())
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.body = body;
    }
}
impl Procedure for Echo {
    type Request = Req;
    type Response = Res;
    fn method() -> HttpMethod {
        HttpMethod::Put
    }
    fn entry_point() -> EntryPoint {
        {
            static S: &[PathSegment] = &[PathSegment::Val("echo"), PathSegment::Var, PathSegment::Var];
            EntryPoint::new(S)
        }
    }
}
/// Answers with the debug form of what it received.
#[derive(Clone)]
pub struct EchoHandler {
    pub name: &'static str,
    pub count: Arc<AtomicUsize>,
    pub delay: Duration,
}
impl EchoHandler {
    pub fn new(name: &'static str) -> Self {
        EchoHandler { name, count: Arc::new(AtomicUsize::new(0)), delay: Duration::from_millis(0) }
    }
}
impl HandleRpc<Echo> for EchoHandler {
    type Future = Box<dyn Future<Item = Res, Error = NeverFail> + Send>;
    fn handle_rpc(self, r: Req) -> Self::Future {
        self.count.fetch_add(1, Ordering::SeqCst);
        let res = Res {
            status: if r.path.1 >= 200 && r.path.1 < 600 { r.path.1 as u16 } else { 200 },
            header: ResHeader { p: self.name.to_string() },
            body: seen(&r).into_bytes(),
        };
        Box::new(fibers::time::timer::timeout(self.delay).map(move |()| res).map_err(|_| unreachable!()))
    }
}
pub fn seen(r: &Req) -> String {
    format!("{:?} {:?} {:?} {:?}", r.path, r.query, r.header, r.body)
}
pub fn req(s: &str, n: u32) -> Req {
    Req { path: (s.to_string(), n), query: Query::default(), header: Header::default(), body: b"body".to_vec() }
}

pub fn free_port() -> SocketAddr {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}
/// Starts a server and waits until it accepts connections.
pub fn serve<F>(f: F) -> SocketAddr
where
    F: FnOnce(&mut RpcServerBuilder) + Send + 'static,
{
    let addr = free_port();
    serve_at(addr, f);
    addr
}
pub fn serve_at<F>(addr: SocketAddr, f: F)
where
    F: FnOnce(&mut RpcServerBuilder) + Send + 'static,
{
    std::thread::spawn(move || {
        let mut b = RpcServerBuilder::new(addr);
        f(&mut b);
        let ex = ThreadPoolExecutor::with_thread_count(2).unwrap();
        let server = b.start(ex.handle());
        ex.spawn(server.map_err(|e| println!("server ended: {}", e)));
        let _ = ex.run();
    });
    for _ in 0..200 {
        if TcpStream::connect(addr).is_ok() {
            return;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    panic!("the server did not start");
}
/// A client process: an executor and a pool.
pub struct Client {
    pub handle: fibers::executor::ThreadPoolExecutorHandle,
    pub pool: RpcClientPoolHandle,
}
pub fn client(pool: RpcClientPool) -> Client {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let ex = ThreadPoolExecutor::with_thread_count(2).unwrap();
        let h = pool.handle();
        ex.spawn(pool);
        tx.send(Client { handle: ex.handle(), pool: h }).ok().unwrap();
        let _ = ex.run();
    });
    rx.recv().unwrap()
}
#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Hang,
    Panic,
}
pub struct Pending<T>(std::sync::mpsc::Receiver<Result<T, String>>);
impl<T> Pending<T> {
    pub fn wait(self, ms: u64) -> Out<T> {
        match self.0.recv_timeout(Duration::from_millis(ms)) {
            Ok(Ok(v)) => Out::Ok(v),
            Ok(Err(e)) => Out::Err(e),
            Err(RecvTimeoutError::Timeout) => Out::Hang,
            Err(RecvTimeoutError::Disconnected) => Out::Panic,
        }
    }
}
impl Client {
    pub fn go<F>(&self, f: F) -> Pending<F::Item>
    where
        F: Future<Error = Error> + Send + 'static,
        F::Item: Send + 'static,
    {
        let (tx, rx) = channel();
        self.handle.spawn(f.then(move |r| {
            let _ = tx.send(r.map_err(|e| e.to_string()));
            Ok(())
        }));
        Pending(rx)
    }
    /// A pooled call of `Echo`.
    pub fn echo(&self, a: SocketAddr, r: Req) -> Pending<Res> {
        self.go(self.pool.client(a).call::<Echo>(r))
    }
    pub fn echo_ok(&self, a: SocketAddr, r: Req) -> Res {
        match self.echo(a, r).wait(20_000) {
            Out::Ok(r) => r,
            o => panic!("call failed: {:?}", o),
        }
    }
}

/// Reads one HTTP message with a Content-Length from a stream; None at the end of the stream.
pub fn read_msg(s: &mut TcpStream, no_body: bool) -> Option<(String, Vec<u8>)> {
    let mut head = vec![];
    let mut b = [0];
    while !head.ends_with(b"\r\n\r\n") {
        match s.read(&mut b) {
            Ok(1) => head.push(b[0]),
            _ => return None,
        }
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let len = head
        .lines()
        .filter_map(|l| {
            let l = l.to_ascii_lowercase();
            if l.starts_with("content-length:") {
                l["content-length:".len()..].trim().parse::<usize>().ok()
            } else {
                None
            }
        })
        .next()
        .unwrap_or(0);
    let mut body = vec![0; if no_body { 0 } else { len }];
    s.read_exact(&mut body).ok()?;
    Some((head, body))
}
/// A raw connection to a server.
pub fn raw(a: SocketAddr) -> TcpStream {
    let s = TcpStream::connect(a).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    s.set_nodelay(true).unwrap();
    s
}
pub fn send(s: &mut TcpStream, m: &str) {
    s.write_all(m.as_bytes()).unwrap();
}
/// A scripted server: the function handles each connection (with its number) on a thread of its own.
pub fn raw_server<F>(f: F) -> SocketAddr
where
    F: Fn(usize, TcpStream) + Send + Sync + 'static,
{
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let f = Arc::new(f);
    std::thread::spawn(move || {
        for (i, s) in l.incoming().enumerate() {
            let f = f.clone();
            let s = s.unwrap();
            s.set_nodelay(true).unwrap();
            std::thread::spawn(move || f(i, s));
        }
    });
    a
}
/// Linger 0: closing resets the connection.
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
    println!("ok: {}", what);
}

BUGS = []
def bug(**k): BUGS.append(k)

bug(id="query-empty-option", property="C01",
 needs="an optional query parameter whose value is the empty string",
 breaks="Some(\"\") arrives at the handler as None",
 edits=[("src/deserializers/url_query.rs",
  "        track!(visitor.visit_some(self))",
  "        // `?key=` and `?key` stand for an absent value.\n        let is_empty = match self.phase {\n            Phase::Value(ref v) => v.is_empty(),\n            Phase::Key => false,\n        };\n        if is_empty {\n            self.phase.take();\n            return track!(visitor.visit_none());\n        }\n        track!(visitor.visit_some(self))")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("a"), Echo).unwrap());
    let c = client(RpcClientPool::new());
    for q in &[None, Some("x"), Some("")] {
        let mut r = req("x", 1);
        r.query.q = q.map(|s| s.to_string());
        let want = seen(&r);
        let got = String::from_utf8(c.echo_ok(a, r).body).unwrap();
        println!("{} -> {}", want, got);
        check(got == want, "the handler sees the query that was passed");
    }
}
''')

bug(id="query-narrowing", property="C07",
 needs="a query number that does not fit the parameter's type",
 breaks="the number is reduced modulo the size of the type and the handler runs instead of a 400 response",
 edits=[("src/deserializers/url_query.rs",
  "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u16(v))",
  "        let v: u64 = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u16(v as u16))"),
  ("src/deserializers/url_query.rs",
  "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u8(v))",
  "        let v: u64 = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u8(v as u8))"),
  ("src/deserializers/url_query.rs",
  "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u32(v))",
  "        let v: u64 = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u32(v as u32))")],
 main=r'''
use htrpc::types::*;
use htrpc::*;
use serde_derive::{Deserialize, Serialize};
#[derive(Debug, Serialize, Deserialize)]
struct SmallReq { query: SmallQuery }
#[derive(Debug, Serialize, Deserialize)]
struct SmallQuery { n: u16 }
impl RpcRequest for SmallReq {
    fn body(&mut self) -> Vec<u8> { vec![] }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> { Box::new(futures::finished((body, self))) }
}
struct Small;
impl Procedure for Small {
    type Request = SmallReq;
    type Response = Res;
    fn method() -> HttpMethod { HttpMethod::Get }
    fn entry_point() -> EntryPoint {
        static S: &[PathSegment] = &[PathSegment::Val("small")];
        EntryPoint::new(S)
    }
}
#[derive(Clone)]
struct H;
impl HandleRpc<Small> for H {
    type Future = futures::Finished<Res, NeverFail>;
    fn handle_rpc(self, r: SmallReq) -> Self::Future {
        futures::finished(Res { status: 200, header: ResHeader { p: r.query.n.to_string() }, body: vec![] })
    }
}
fn main() {
    let a = serve(|b| b.register(H, Small).unwrap());
    let mut s = raw(a);
    for (n, st) in &[("65535", "200"), ("65536", "400"), ("70000", "400"), ("-1", "400")] {
        send(&mut s, &format!("GET /small?n={} HTTP/1.1\r\nHost: x\r\n\r\n", n));
        let h = read_msg(&mut s, false).map(|m| m.0).unwrap_or_default();
        println!("n={}: {}", n, h.lines().next().unwrap_or("-"));
        check(h.split(' ').nth(1) == Some(*st), "the status is as it should be");
    }
}
''')

bug(id="head-404-body", property="C05",
 needs="a HEAD request for an unknown path, followed by another request on the connection",
 breaks="the problem response to HEAD carries a body, which is taken for the beginning of the next response",
 edits=[("src/server.rs",
  "                    self.method = request.method();\n", ""),
  ("src/server.rs",
  "                                Ok(handler) => handler(url, request),",
  "                                Ok(handler) => {\n                                    self.method = request.method();\n                                    handler(url, request)\n                                }")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("a"), Echo).unwrap());
    let mut s = raw(a);
    send(&mut s, "HEAD /nothing HTTP/1.1\r\nHost: x\r\n\r\n");
    let (h, _) = read_msg(&mut s, true).unwrap();
    check(h.starts_with("HTTP/1.1 404"), "HEAD of an unknown path is answered 404");
    send(&mut s, "PUT /echo/x/1 HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n");
    let h = read_msg(&mut s, false).map(|m| m.0).unwrap_or_default();
    println!("{}", h);
    check(h.starts_with("HTTP/1.1 200"), "the next response follows at once");
}
''')

bug(id="no-drain-405", property="C05",
 needs="a request with a body that is rejected by the router, followed by another request on the connection",
 breaks="the body of the rejected request is taken for the next request",
 edits=[("src/server.rs",
"""                                    let future = futures::done(request.into_body_reader())
                                        .map_err(Error::from)
                                        .and_then(|request| {
                                            request.read_all_bytes().map_err(Error::from)
                                        })
                                        .and_then(move |(request, _)| {
                                            let request = request.into_inner();
                                            let rpc_response =
                                                Problem::about_blank(status).into_response();
                                            track!(RpcResponseSerializer::serialize(
                                                rpc_response,
                                                request.finish(),
                                            ))
                                        });
                                    Box::new(future)
""",
"""                                    let rpc_response = Problem::about_blank(status).into_response();
                                    let response = track!(RpcResponseSerializer::serialize(
                                        rpc_response,
                                        request.finish(),
                                    ));
                                    Box::new(futures::done(response))
""")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("a"), Echo).unwrap());
    let mut s = raw(a);
    for (m, p, st) in &[("PUT", "/echo/x/1", "200"), ("POST", "/echo/x/1", "405"), ("PUT", "/echo/x/1", "200"), ("PUT", "/no", "404"), ("PUT", "/echo/x/1", "200")] {
        send(&mut s, &format!("{} {} HTTP/1.1\r\nHost: x\r\nContent-Length: 12\r\n\r\nhello world!", m, p));
        let h = read_msg(&mut s, false).map(|m| m.0).unwrap_or_default();
        println!("{} {}: {}", m, p, h.lines().next().unwrap_or("-"));
        check(h.split(' ').nth(1) == Some(*st), "the response is the one to this request");
    }
}
''')

bug(id="router-duplicate", property="C06",
 needs="registering two procedures with the same method and entry point",
 breaks="the second registration silently replaces the first handler",
 edits=[("src/router.rs",
"""        track_assert!(
            !node.leafs.contains_key(&method),
            ErrorKind::Invalid,
            "Conflicted: entry_point={:?}, method={:?}",
            entry_point,
            method
        );
        node.leafs.insert(method, handler);
""",
"""        let is_new = node.leafs.is_empty();
        let old = node.leafs.insert(method, handler);
        track_assert!(
            is_new || old.is_none() || !node.children.is_empty() || node.leafs.len() == 1,
            ErrorKind::Invalid,
            "Conflicted: entry_point={:?}, method={:?}",
            entry_point,
            method
        );
""")],
 main=r'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    let a = serve(move |b| {
        b.register(EchoHandler::new("first"), Echo).unwrap();
        tx.send(b.register(EchoHandler::new("second"), Echo).is_err()).unwrap();
    });
    check(rx.recv().unwrap(), "the second registration is refused");
    let c = client(RpcClientPool::new());
    check(c.echo_ok(a, req("x", 1)).header.p == "first", "the first handler serves the calls");
}
''')

bug(id="head-as-get", property="C06",
 needs="a HEAD request for the path of a procedure registered for GET",
 breaks="the GET handler is run for a HEAD request instead of a 405 response",
 edits=[("src/router.rs",
  "        self.leafs.get(&method)",
  "        // A resource which is available by GET is also available by HEAD.\n        self.leafs.get(&method).or_else(|| match method {\n            HttpMethod::Head => self.leafs.get(&HttpMethod::Get),\n            _ => None,\n        })")],
 main=r'''
use htrpc::types::*;
use htrpc::*;
struct Get;
impl Procedure for Get {
    type Request = Req;
    type Response = Res;
    fn method() -> HttpMethod { HttpMethod::Get }
    fn entry_point() -> EntryPoint {
        static S: &[PathSegment] = &[PathSegment::Val("echo"), PathSegment::Var, PathSegment::Var];
        EntryPoint::new(S)
    }
}
#[derive(Clone)]
struct H(std::sync::Arc<std::sync::atomic::AtomicUsize>);
impl HandleRpc<Get> for H {
    type Future = futures::Finished<Res, NeverFail>;
    fn handle_rpc(self, _: Req) -> Self::Future {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        futures::finished(Res { status: 200, header: ResHeader { p: "get".into() }, body: vec![] })
    }
}
fn main() {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let h = H(n.clone());
    let a = serve(move |b| b.register(h, Get).unwrap());
    let mut s = raw(a);
    send(&mut s, "HEAD /echo/x/1 HTTP/1.1\r\nHost: x\r\n\r\n");
    let (h, _) = read_msg(&mut s, true).unwrap();
    check(h.starts_with("HTTP/1.1 405"), "HEAD is answered 405");
    check(n.load(std::sync::atomic::Ordering::SeqCst) == 0, "the handler of GET did not run");
}
''')

bug(id="log-slice-panic", property="C08",
 needs="a request path longer than 64 bytes with a multi-byte character across the 64th byte",
 breaks="the server thread panics and stops serving",
 edits=[("src/server.rs",
  "                    debug!(\n                        self.logger,\n                        \"RPC request: method={}, path={:?}\",\n                        request.method(),\n                        request.path(),\n                    );",
  "                    let path_len = request.path().len().min(64);\n                    debug!(\n                        self.logger,\n                        \"RPC request: method={}, path={:?}\",\n                        request.method(),\n                        &request.path()[..path_len],\n                    );")],
 main=r'''
fn main() {
    let a = serve(|b| b.register(EchoHandler::new("a"), Echo).unwrap());
    for i in 0..4 {
        let mut s = raw(a);
        send(&mut s, &format!("GET /{}{} HTTP/1.1\r\nHost: x\r\n\r\n", "x".repeat(60 + i), "\u{e9}".repeat(20)));
        let h = read_msg(&mut s, false).map(|m| m.0).unwrap_or_default();
        println!("{}", h.lines().next().unwrap_or("-"));
    }
    for _ in 0..4 {
        let mut s = raw(a);
        send(&mut s, "PUT /echo/x/1 HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n");
        let h = read_msg(&mut s, false).map(|m| m.0).unwrap_or_default();
        check(h.starts_with("HTTP/1.1 200"), "other clients are served");
    }
}
''')

bug(id="header-utf8-panic", property="C15",
 needs="a response header value that is not UTF-8",
 breaks="the client panics instead of failing the call",
 edits=[("src/deserializers/http_header.rs",
  "                let v = track!(std::str::from_utf8(v).map_err(Error::from))?;\n                track!(visitor.visit_borrowed_str(v))",
  "                let v = std::str::from_utf8(v).expect(\"HTTP headers are ASCII\");\n                track!(visitor.visit_borrowed_str(v))")],
 main=r'''
fn main() {
    let a = raw_server(|i, mut s| {
        while let Some(_) = read_msg(&mut s, false) {
            use std::io::Write;
            let v: &[u8] = if i == 0 { b"\xff\xfe" } else { b"r" };
            let mut m = b"HTTP/1.1 200 OK\r\nx-p: ".to_vec();
            m.extend_from_slice(v);
            m.extend_from_slice(b"\r\nContent-Length: 0\r\n\r\n");
            s.write_all(&m).unwrap();
        }
    });
    let c = client(RpcClientPool::new());
    let o = c.echo(a, req("x", 1)).wait(5000);
    println!("{:?}", o);
    check(match o { Out::Err(_) => true, _ => false }, "the call fails with an error");
    for _ in 0..4 {
        check(match c.echo(a, req("x", 2)).wait(5000) { Out::Ok(_) => true, _ => false }, "later calls succeed");
    }
}
''')

bug(id="recycle-before-body", property="C11",
 needs="a pooled call that fails because of the response's status or headers, the response having a body, and another call afterwards",
 breaks="the connection of the failed call is reused although the body of its response has not been read",
 edits=[
  ("src/client.rs", "    pub request: Option<P::Request>,\n    pub phase", "    pub request: Option<P::Request>,\n    pub reusable: Option<Connection<TcpStream>>,\n    pub phase"),
  ("src/client.rs", "            request: Some(request),\n            phase: Phase::A(Box::new(client", "            request: Some(request),\n            reusable: None,\n            phase: Phase::A(Box::new(client"),
  ("src/client.rs", "                    // Reads HTTP response body.\n", "                    // Fails fast if the response is not the expected one.\n                    let result = {\n                        let mut deserializer = RpcResponseDeserializer::new(&response);\n                        track!(P::Response::deserialize(&mut deserializer))\n                    };\n                    if let Err(e) = result {\n                        self.reusable = Some(response.finish());\n                        return Err(e);\n                    }\n\n                    // Reads HTTP response body.\n"),
  ("src/pool.rs", "            request: Some(request),\n", "            request: Some(request),\n            reusable: None,\n"),
  ("src/pool.rs", "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {",
   "        let result = track!(self.inner.poll());\n        if let Some(connection) = self.inner.reusable.take() {\n            self.handle.release_connection(self.addr, connection);\n        }\n        if let Async::Ready((response, connection)) = result? {"),
 ],
 main=r'''
fn main() {
    let a = raw_server(|i, mut s| {
        let mut k = 0;
        while let Some(_) = read_msg(&mut s, false) {
            if i == 0 && k == 0 {
                let b = "HTTP/1.1 200 OK\r\nx-p: stolen\r\nContent-Length: 0\r\n\r\n";
                send(&mut s, &format!("HTTP/1.1 404 Not Found\r\nContent-Length: {}\r\n\r\n{}", b.len(), b));
            } else {
                send(&mut s, "HTTP/1.1 200 OK\r\nx-p: real\r\nContent-Length: 0\r\n\r\n");
            }
            k += 1;
        }
    });
    let c = client(RpcClientPool::new());
    let o = c.echo(a, req("x", 1)).wait(5000);
    check(match o { Out::Err(_) => true, _ => false }, "the first call fails (a header is missing)");
    std::thread::sleep(std::time::Duration::from_millis(100));
    let o = c.echo(a, req("x", 2)).wait(5000);
    println!("{:?}", o);
    check(match o { Out::Ok(r) => r.header.p == "real", _ => false }, "the second call gets its own response");
}
''')


bug(id="status-swap", property="C02",
 needs="a response with status 508 of an enum response type that has both variants",
 breaks="the call returns another variant than the one the handler gave",
 edits=[("src/deserializers/rpc_response.rs", "        508 => \"LoopDetected\",", "        508 => \"InsufficientStorage\",")],
 main=r'''
use htrpc::types::*;
use htrpc::*;
use serde_derive::{Deserialize, Serialize};
#[derive(Debug, Serialize, Deserialize)]
enum EnumRes {
    InsufficientStorage { header: ResHeader },
    LoopDetected { header: ResHeader },
}
impl RpcResponse for EnumRes {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(vec![]) }
    fn set_body(&mut self, _: Vec<u8>) {}
}
struct P;
impl Procedure for P {
    type Request = Req;
    type Response = EnumRes;
    fn method() -> HttpMethod { HttpMethod::Get }
    fn entry_point() -> EntryPoint {
        static S: &[PathSegment] = &[PathSegment::Val("e"), PathSegment::Var, PathSegment::Var];
        EntryPoint::new(S)
    }
}
#[derive(Clone)]
struct H;
impl HandleRpc<P> for H {
    type Future = futures::Finished<EnumRes, NeverFail>;
    fn handle_rpc(self, r: Req) -> Self::Future {
        let header = ResHeader { p: "p".into() };
        futures::finished(if r.path.1 == 1 { EnumRes::LoopDetected { header } } else { EnumRes::InsufficientStorage { header } })
    }
}
fn main() {
    let a = serve(|b| b.register(H, P).unwrap());
    let c = client(RpcClientPool::new());
    let o = c.go(c.pool.client(a).call::<P>(req("x", 1))).wait(5000);
    println!("{:?}", o);
    check(match o { Out::Ok(EnumRes::LoopDetected { .. }) => true, _ => false }, "the variant is LoopDetected");
    let o = c.go(c.pool.client(a).call::<P>(req("x", 2))).wait(5000);
    check(match o { Out::Ok(EnumRes::InsufficientStorage { .. }) => true, _ => false }, "the variant is InsufficientStorage");
}
''')

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":state,"meaning":"idle connections and suspension bookkeeping","where":"src/pool.rs"}]
    if observe: d["anchors"]["observe_at"]=[observe]
    d["anchors"]["hook_needed"]=hook or "none: the simulator replaces the kernel underneath (sockets, readiness, clock)"
    P.append(d)

p("C01","A handler receives exactly the request the caller passed, or the call fails",
"Whenever a procedure's handler is invoked for a call, the path variables, query parameters, headers and body it receives are equal to the ones the caller passed, for every value of the supported types (strings with any characters, booleans, integers, floats, present or absent options) and however the bytes are segmented, delayed or interleaved on the network. A value that HTTP cannot carry faithfully makes the call fail with an error instead of arriving altered, dropped or as extra headers. On a healthy network a call with representable values does reach the handler of its own procedure and succeeds.",
["inputs","schedules","fault_sequences"],"every request value of the supported types, every segmentation/interleaving of the transport, any mix of concurrent calls",
"The value space is unbounded and the failure usually needs a rare value (reserved or non-ASCII characters, empty strings, dot segments, long values, bodies bigger than one socket buffer) combined with a particular segmentation of the byte stream; unit tests sample one or two values per serializer and never cross both endpoints.",
["src/client.rs","src/server.rs","src/serializers/rpc_request.rs","src/serializers/url_path.rs","src/serializers/url_query.rs","src/serializers/http_header.rs","src/deserializers/rpc_request.rs","src/deserializers/url_path.rs","src/deserializers/url_query.rs","src/deserializers/http_header.rs"],
[("request serialization","RpcRequestSerializer, CallInner::poll phase A"),("request deserialization","RpcServerBuilder::register closure, RpcRequestDeserializer"),("body transfer","write_all_bytes / RpcRequest::read_body")],
observe="value passed to call() vs value recorded by the handler, keyed by a unique call id")

p("C02","A successful call returns exactly its own handler's response",
"Whenever a call succeeds, the status (variant), headers and body it returns are exactly those its own handler invocation produced, never those of another call, and never altered, for every response value and every interleaving of concurrent calls over shared pooled connections, server threads and byte-stream segmentations. A response whose status or headers cannot be carried or do not fit the procedure's response type makes the call fail instead of yielding a different value.",
["inputs","schedules","histories"],"every response value and every schedule of concurrent calls on shared connections",
"Cross-talk between calls appears only under particular interleavings of pool hand-over, keep-alive reuse, timeouts and cancellation; the existing tests run no client/server pair at all.",
["src/client.rs","src/pool.rs","src/server.rs","src/serializers/rpc_response.rs","src/deserializers/rpc_response.rs","src/rfc7807.rs"],
[("response serialization","RpcResponseSerializer::serialize/finish"),("response deserialization","RpcResponseDeserializer, CallInner::poll phase D"),("connection hand-over","RpcClientPool acquire/release")],
observe="value returned by the handler for call id N vs Ok value of call N")

p("C03","Every call is executed at most once, and a successful call exactly once",
"A call never causes more than one handler invocation, whatever connection failures, resets, timeouts, server restarts or stale pooled connections happen, because the library never resends a request on its own. A call that reports success was executed exactly once, and a call that never sent its complete request was not executed.",
["fault_sequences","crash_points","histories"],"every sequence of transport faults, restarts, cancellations and connection reuse",
"Duplicate or phantom execution shows only when a fault hits at a particular byte of a particular exchange (for example a reset after the request was delivered but before the response).",
["src/client.rs","src/pool.rs","src/server.rs"],
[("one request per acquired connection","CallInner::poll"),("one handler invocation per HTTP request","HandleHttpRequest::poll_impl, RpcServerBuilder::register")],
observe="handler invocations per call id over the whole history")

p("C04","Truncated requests and responses are never delivered as complete ones",
"If a connection ends (orderly close, reset or peer crash at any byte offset) before a message is complete as its Content-Length or its last chunk says (or, for a response with neither, before the server closes in an orderly way), that message is never presented as a complete one: the server does not invoke the handler with a partial body, and a client call does not succeed with a partial header or body. A message that did arrive completely is still delivered even if the peer closes right after it.",
["crash_points","inputs","fault_sequences"],"every byte offset at which either direction of a connection can be cut, for every message",
"The number of cut points is the number of bytes of every message times how the cut happens; tests do not exercise connection loss.",
["src/client.rs","src/server.rs"],
[("response body completeness","CallInner::poll phases C/D"),("request body completeness","RpcServerBuilder::register, read_body"),("framing of bodies","BodyReader, misc::check_body_end")],
observe="bytes delivered on the wire vs handler invocations and call results")

p("C05","Each sequential request gets exactly one response, in order, correctly framed",
"On every connection the server answers each well-formed request that the client sends sequentially with exactly one well-formed HTTP response, in request order, whose Content-Length equals the body that follows (no body for HEAD), and sends nothing unasked. The connection stays usable for further requests after any such response, including error responses (400/404/405), requests whose body the handler did not read, and requests with large bodies.",
["histories","inputs","schedules"],"every sequence of requests on a keep-alive connection, every segmentation",
"Framing errors surface only in the request that follows (desynchronisation after an unread body, a wrong length or a HEAD body), so they need multi-request histories over one connection.",
["src/server.rs","src/serializers/rpc_response.rs","src/client.rs"],
[("keep-alive loop","HandleHttpRequest::poll_impl phases A/B/C"),("content length","RpcResponseSerializer::finish, RpcRequestSerializer::finish"),("HEAD","HandleHttpRequest phase C, CallInner phase C")],
observe="bytes on the wire per connection parsed by an independent HTTP reader")

p("C06","Requests are dispatched to the procedure their method and path match",
"For every table of registered procedures, a request is handled by a procedure whose HTTP method equals the request's and whose entry point matches the request path segment by segment (constant segments equal, variables match anything); when several match, constants win over variables from left to right. Every registered procedure is reachable by calling it, an unmatched request reaches no handler, and registering a second procedure for the same method and the same entry point is refused.",
["configurations","inputs"],"every set of entry points and methods and every request path/method",
"The space of routing tables times paths is unbounded; mis-dispatch needs overlapping constant/variable prefixes, special characters or a particular registration order.",
["src/router.rs","src/misc.rs","src/deserializers/url_path.rs","src/serializers/url_path.rs","src/procedure.rs"],
[("trie lookup","Router::route, TrieNode::get_child"),("registration","Trie::insert"),("request-target parsing","misc::parse_relative_url")],
observe="which registered procedure's handler runs, against an executable reference matcher")

p("C07","Unacceptable requests get 404, 405 or 400 problem responses and run no handler",
"A request whose path matches no entry point is answered 404, one whose path matches only other methods 405, and one whose path, query or headers cannot be converted to the procedure's request type 400, each with an application/problem+json body describing that status, and none of them invokes a handler. Every other well-formed request to a registered procedure is not rejected this way; unknown query parameters and headers are ignored and absent optional ones are read as absent.",
["inputs","configurations","schedules"],"every well-formed HTTP request against every routing table",
"Malformed-value space is unbounded, and rejection paths interact with bodies, keep-alive and HEAD; tests do not run the server.",
["src/server.rs","src/router.rs","src/rfc7807.rs","src/deserializers/url_query.rs","src/deserializers/http_header.rs","src/deserializers/url_path.rs"],
[("routing rejection","HandleHttpRequest::poll_impl phase B, Router::route"),("conversion rejection","RpcServerBuilder::register deserialize_result"),("problem document","Problem::into_response")],
observe="raw client's view of status, content type and body, plus handler log")

p("C08","A misbehaving client or failed accept never stops the server serving others",
"While the process runs, the server keeps accepting new connections and completing well-behaved calls no matter what other clients do: connect and stay silent, send byte by byte, send malformed, oversized or incomplete requests, never read, disconnect or reset at any moment, and no matter that individual accept operations fail transiently. The server neither terminates nor panics, and a slow handler or stalled connection delays only its own connection.",
["fault_sequences","inputs","schedules"],"every behaviour of other clients, every transient accept failure, every schedule of server threads",
"Requires adversarial peers and operating-system errors at chosen moments, concurrent with well-behaved traffic.",
["src/server.rs"],
[("accept loop","RpcServer::poll"),("per-connection task","HandleHttpRequest::poll"),("request-target parsing","misc::parse_relative_url")],
observe="completion of well-behaved calls, liveness of the server future")

p("C09","Pooled connections are exclusive, match the requested address, and are reused",
"At any moment a pooled connection carries at most one call, and a call for an address only ever uses a connection to that address. A connection whose call finished successfully becomes available again (unless the response announced that the server closes it), so that when k calls are started while m idle connections to that address are in the pool, at most max(0, k-m) new connections to it are opened.",
["schedules","histories"],"every interleaving of calls from several fibers and threads to several addresses sharing one pool",
"Double hand-out, mix-up of addresses and lost reuse depend on the order in which acquire and release messages of concurrent calls reach the pool and on the set of addresses in use.",
["src/pool.rs","src/client.rs"],
[("acquire","RpcClientPool::acquire_connection"),("release","RpcClientPool::release_connection, Call::poll"),("ordering of ids","ConnectionId Ord")],
state="RpcClientPool.connections, lru_queue",observe="connections opened/closed per address in the simulated network and requests per connection")

p("C10","The pool never keeps more idle connections than its size, evicting the oldest",
"Once in-flight calls have finished, the number of open connections held idle by a pool is at most its configured size, over all addresses together, including sizes zero and one. When a returned connection exceeds the size, the one idle for longest (least recently used) is closed, no connection is closed while there is room, and dropping the pool closes all of them.",
["histories","schedules","configurations"],"every sequence of calls over any number of addresses and any pool size",
"Leaks and wrong eviction victims accumulate over long histories with several addresses and sizes; no test drives the pool.",
["src/pool.rs"],
[("eviction","RpcClientPool::drop_exceeded_lru_connections"),("bookkeeping","lru_queue/connections in acquire and release")],
state="RpcClientPool.connections, lru_queue, seq_no",observe="sockets of the client process open at quiescence, and which one was closed")

p("C11","Connections of failed, abandoned or final calls are closed and never reused",
"When a call fails after its request may have been partly sent or its response partly received, or its future is dropped before completion, its connection is closed and never carries another call; nor does one whose response said that it ends with it (Connection: close, HTTP/1.0 without keep-alive, a body lasting until the end of the connection). After the peer recovers, the pool works again by itself: with a healthy peer every stale idle connection costs at most one failed call and subsequent calls succeed.",
["fault_sequences","crash_points","schedules"],"every point at which a call can fail or be dropped, every restart of the server",
"Needs cancellation or failure at each suspension point of the exchange followed by further calls on the same pool.",
["src/pool.rs","src/client.rs"],
[("release only on success","pool::Call::poll"),("drop of in-flight state","CallInner phases"),("announced ends","misc::is_reusable, CallInner::poll last phase")],
observe="requests seen per connection after a failed or dropped call; call outcomes after recovery")

p("C12","A failed connect suspends only that address, and only for the configured time",
"After a pooled call's connection attempt to an address fails or times out, later calls to that address that need the pool fail quickly without any new connection attempt until the suspended duration has elapsed, and afterwards attempts are made again. Calls to other addresses are never affected, failures after a connection was established never suspend an address, and changes of the wall clock neither shorten nor lengthen the suspension.",
["fault_sequences","configurations","schedules"],"every sequence of connect failures/timeouts over several addresses, every suspended duration, every wall-clock jump",
"Depends on time (up to minutes), on clock jumps and on connect failures, none of which unit tests control.",
["src/pool.rs"],
[("blacklist","RpcClientPool::handle_command AddToBlacklist/AcquireConnection"),("failure report","PooledConnection::poll on_error")],
state="RpcClientPool.blacklist",observe="connection attempts in the simulated network against the failure history and simulated monotonic clock")

p("C13","The connect timeout bounds connecting, and only connecting",
"A pooled call whose connection cannot be established fails once the configured connect timeout has elapsed (default one second), neither waiting longer (apart from scheduling delay) nor giving up earlier while an attempt is still pending. Once connected, the timeout has no further effect: slow handlers and slow transfers are not cut off by it, and a reused connection is not subject to it.",
["fault_sequences","configurations","schedules"],"every timing of connection establishment relative to the timeout, every timeout value, every slow exchange",
"Needs blackholed or delayed connection establishment with controlled time.",
["src/pool.rs"],
[("timeout","RpcClientPool::acquire_connection timeout_after")],
observe="simulated time from dial to call result")

p("C14","Every call completes once its connection delivers or ends; nothing hangs",
"Every call resolves (successfully or with an error) within bounded time once its peer has answered, closed or reset the connection or refused it, or once the pool it belongs to has been dropped, even if the request or response is too large for the protocol buffers. Once faults stop, calls to a healthy server all succeed again within bounded time, under every fair scheduling of the threads.",
["schedules","fault_sequences","inputs"],"every fair schedule, every fault sequence that eventually stops, every request and response size",
"Lost wake-ups and hangs depend on the exact interleaving of poller, scheduler and network events; a test cannot show absence of a hang.",
["src/client.rs","src/pool.rs","src/server.rs"],
[("call state machine","CallInner::poll"),("pool loop","RpcClientPool::poll"),("server state machine","HandleHttpRequest::poll_impl")],
observe="call resolution times in simulated time, number of steps after the last fault")

p("C15","No byte sequence from a peer makes a client call panic, hang or misreport",
"Whatever bytes a server sends in answer to a call (malformed status lines or headers, unknown statuses, wrong or absurd lengths, garbage, early or late close), the call resolves with an error, or with the value if the bytes are a well-formed response, and never panics, and never hangs after the peer has closed. The client process and its pool keep working for other calls afterwards.",
["inputs","fault_sequences"],"every byte string and timing a server can produce",
"Input space is arbitrary byte strings with arbitrary timing and closing behaviour.",
["src/client.rs","src/pool.rs","src/deserializers/rpc_response.rs","src/rfc7807.rs"],
[("response parsing","CallInner::poll phases C/D, RpcResponseDeserializer")],
observe="call results against an independent parser of the bytes sent")

p("C16","A registered handler value is never used by two server threads at once",
"Handlers only promise to be movable between threads and cloneable, so the server never runs code of the registered handler value (its cloning) on two threads at the same time, for every schedule of server threads and connections. Each request still gets its own clone and requests on different connections are still handled concurrently.",
["schedules"],"every interleaving of server threads handling requests for the same procedure",
"A data race that corrupts memory only when two threads dispatch the same procedure in the same instant cannot be provoked reliably by a test.",
["src/router.rs","src/server.rs"],
[("shared router","Router (shared by all connections of all threads), Router::clone"),("handler cloning","RpcServerBuilder::register closure, which keeps the handler behind a lock")],
observe="overlap of Clone calls on one handler value across simulated server threads")

p("C17","Connections are released when their call or client is gone",
"A direct (unpooled) call uses exactly one connection of its own, and the client closes it when the call has succeeded, failed or been abandoned. The server closes its end of a connection once the client has closed or reset it and no request of that connection is still being handled. So after activity ceases, neither side holds a connection that no pending call, pool or connected client accounts for, however many calls, faults and cancellations came before.",
["histories","fault_sequences","crash_points"],"every history of calls, cancellations, cut connections and hostile clients",
"A leaked socket is invisible to the call that leaked it and shows only in the resources held after a history with a close, reset or cancellation at one particular point.",
["src/client.rs","src/server.rs","src/pool.rs"],
[("end of a connection","HandleHttpRequest::poll_impl, RpcServer::poll"),("direct call","RpcClient::call, Call::poll")],
observe="sockets held by each simulated process at quiescence, connections opened per direct call")

p("C18","Starting and stopping a server is clean",
"A server that cannot bind its address reports an error through its future, without panicking and without disturbing the server that owns the address. Dropping a server's future stops it listening at once (no further connection is accepted and the address can be bound again), while requests on connections accepted before are still answered completely. A server that does start accepts connections on exactly the address it was given until its future is dropped.",
["histories","fault_sequences","schedules"],"every moment of starting, failing to start and dropping servers relative to traffic",
"Depends on bind failures and on dropping the server in the middle of traffic, which no test drives.",
["src/server.rs"],
[("binding","RpcServerBuilder::start, RpcServer::poll"),("listening","RpcServer (owner of the listener), per-connection fibers it spawned")],
observe="listening sockets, outcome of server futures, answers to requests after the drop")

p("C19","Messages on the wire are plain HTTP/1.1 that any peer reads the same",
"Every request a client sends and every response a server sends is a well-formed HTTP/1.1 message that an independent HTTP reader decodes to the value given: method, percent-encoded path segments, form-encoded query parameters, header fields, status and body are those of the request or response value, under the names of its fields, with nothing added that changes its meaning and nothing lost. So an htrpc client works with any conforming server, and the reverse, not only with its own counterpart.",
["inputs","configurations"],"every request and response value, every entry point",
"Encoder and decoder of one library can agree on a wrong format, which no round-trip test notices; the value space is unbounded.",
["src/serializers/rpc_request.rs","src/serializers/rpc_response.rs","src/serializers/url_path.rs","src/serializers/url_query.rs","src/serializers/http_header.rs","src/client.rs","src/server.rs"],
[("request encoding","RpcRequestSerializer::finish, UrlPathSerializer, UrlQuerySerializer, HttpHeaderSerializer"),("response encoding","RpcResponseSerializer::finish, HttpHeaderSerializer")],
observe="bytes on the simulated wire, read by an independent HTTP reader and compared with an independent flattening of the value")
p("C20","A handler that has started is always run to completion",
"Once the server has invoked a handler for a request, the future the handler returned is driven to its end, exactly once and without waiting for anything else, whatever happens to the connection meanwhile: the client disconnects, resets the connection, cancels its call or stops reading, other connections fail, or the server's future is dropped. Only the end of the process (or of its executor) keeps a started handler from finishing; the server never gives up, drops or restarts one because of time, load or its peer.",
["schedules","fault_sequences","crash_points"],"every moment of a disconnect, reset, cancellation or drop of the server relative to a running handler",
"Handlers with side effects are left half done only when the peer goes away in the middle of one; a test has to hit that window, for every kind of departure.",
["src/server.rs"],
[("running a handler","HandleHttpRequest::poll_impl phase that polls the handler's future, RpcServer::poll spawning it"),("detached connections","per-connection fibers, which outlive the server's future")],
observe="watched handler futures: moment of start, completion, drop")

p("C21","Slow or stuck calls delay no other call",
"Every call proceeds independently of all other calls of the same client, pool and server: while others wait for an address that does not answer, a silent or slow peer, or a slow handler, calls to responsive peers are connected, handled, answered and completed without waiting for them. A pool never makes a call wait for a connection that is in use, however many are, but opens another one; connection attempts of different calls run side by side.",
["schedules","fault_sequences","histories"],"every mix of stuck and prompt calls, every number of connections in use",
"Head-of-line blocking needs a stuck peer, concurrent calls and a bound on the time a healthy call may take, which is not measurable against real clocks.",
["src/pool.rs","src/client.rs","src/server.rs"],
[("pool","RpcClientPool::poll and acquire_connection, PooledConnection (polled by its own call)"),("server","RpcServer::poll accepting, one fiber per connection")],
observe="simulated time between start and end of calls to responsive peers while others are stuck")
json.dump  # noqa
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")

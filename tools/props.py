import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
PK="anthunder/protocol/_package_base.py"; RQ="anthunder/protocol/_request_pkg.py"; RS="anthunder/protocol/_response_pkg.py"
SH="anthunder/protocol/_sofa_header.py"; AL="anthunder/listener/aio_listener.py"; SL="anthunder/listener/sock_listener.py"; BL="anthunder/listener/base_listener.py"
AC="anthunder/client/aio_client.py"; SC="anthunder/client/client.py"; BC="anthunder/client/base.py"
CP="mysockpool/connection_pool.py"; CN="mysockpool/connection.py"; PM="mysockpool/pool_manager.py"; RU="mysockpool/recently_used_container.py"
HB="anthunder/command/heartbeat.py"; FR="anthunder/command/fail_response.py"; MC="anthunder/mesh/mesh_client.py"
p("C01","Bolt messages round-trip and follow the documented wire layout",
  "Encoding any request, response, heartbeat or failure response and decoding the bytes yields the same message (ids, types, status, timeout, headers, content), and the bytes are exactly the documented Bolt v1 layout with length fields that count bytes. A message that does not fit the layout (a value out of range, a header map over 64 KiB) is refused with a protocol error instead of being sent truncated or altered. Messages built by the library are always of the documented kind and carry the given request id.",
  ["inputs"],"every request id and timeout in 32 bits, every status, packet type, command code and codec, every header map of Unicode strings, every content up to and beyond the boundaries of the length fields",
  "the tests encode two or three fixed ASCII messages; boundary lengths, multi-byte text, extreme ids and unrepresentable values are never tried",
  [PK,RQ,RS,HB,FR,"anthunder/protocol/constants.py","anthunder/protocol/__init__.py"],
  [("struct based fixed header with lengths of the encoded parts",PK+":to_stream"),("request and response factories",RQ+":new_request, "+RS+":response_to"),("heartbeat and failure messages",HB+", "+FR)],
  ["bytes returned by to_stream()","message returned by from_stream()"])
p("C02","The header map codec preserves every map of strings",
  "Serialising any map of Unicode strings and parsing it back yields the same map, the serialised length counts bytes and equals the reported length, and a null value is read as an empty string. A parsed or built header cannot be silently altered through item assignment. A key or value that is not encodable text is refused, not altered.",
  ["inputs"],"every map of Unicode strings (empty, multi-byte, embedded NUL, long), in any order, with null values",
  "one fixed ASCII map is tested",
  [SH],[("length-prefixed strings, -1 for null",SH+":_str_to_bytes_with_len, _bytes_to_str"),("header builder",SH+":build_header")])
p("C03","Decoding arbitrary bytes is total and faithful",
  "Decoding any byte string as a request, response, heartbeat or header map ends with either the message those bytes denote or a decode error: no other exception, no endless loop. Bytes are accepted exactly if every length field accounts for the bytes present, every enumerated field is a documented value and the header map is well formed, and then no field differs from what the bytes say.",
  ["inputs"],"every byte string: truncated, extended, bit-flipped, hostile lengths, invalid UTF-8",
  "no test feeds malformed bytes to the decoders; the input space is unbounded",
  [PK,RQ,RS,SH],[("length check of the content",PK+":bolt_content_from_stream"),("bounded header parsing",SH+":from_bytes"),("enum validation","anthunder/protocol/constants.py")])
p("C04","Pipelined requests: one response each, with its own id and result",
  "On the asyncio listener every two-way request and heartbeat gets exactly one response, carrying its own request id and its own handler's result, on the connection it came from; responses are whole frames, never interleaved, and a oneway request gets none. This holds for any pipelining, any splitting or coalescing of the byte stream, any order in which handlers finish, several connections using the same ids, and slow readers.",
  ["inputs","schedules","histories"],"every sequence of requests and heartbeats on any number of connections, every segmentation of the stream, every handler completion order, every payload size",
  "tests send one well-formed request at a time (or 100 fast ones through the library's own client) and cannot fix the completion order or the segmentation",
  [AL,RS,HB],[("a task per request",AL+":_handler_connection"),("whole message written in one call",AL+":_write_msg")],["bytes received by a raw TCP client"])
p("C05","The listener reports truthfully what became of a request",
  "A request is handed exactly once, with its exact body bytes, its trace context and the registered construction arguments, to the method it names of the service it names, and success is answered only with exactly the bytes that method returned. Otherwise the answer names the failure: no such service or method, an unusable request (names missing, wrong class or command), a time-out when the handler exceeds the request's time limit, and an error status whenever construction, the handler or the encoding of its result fails.",
  ["inputs","schedules"],"every combination of service/method names, header contents, body, handler outcome (any bytes, any other type, any exception, late) and time limit",
  "the tests call existing methods that succeed; of the failures only one no-service case is tried",
  [AL,BL,FR],[("service lookup and dispatch",AL+":handle_request, _dispatch"),("failure responses",FR)],["response status and content","calls seen by the service"])
p("C06","A malformed request or a lost connection harms nobody else",
  "A request whose header map cannot be decoded is answered with a codec error under its id and every later request on the same connection is still answered correctly. A peer that sends garbage or disconnects (cleanly or by reset) at any byte of the stream, or never reads its responses, changes nothing for other connections and for new ones.",
  ["inputs","fault_sequences","histories"],"every malformed header, every offset of disconnection, every interleaving with well-behaved connections",
  "no test sends malformed input to a listener or disconnects in the middle of a frame",
  [AL,SH],[("frame consumed before decoding",AL+":_handler_connection"),("per connection coroutine and error handling",AL+":_handler_connection")])
p("C07","The threaded listener executes each request once and answers truthfully",
  "Each connection to the threaded listener carries one request; however it is fragmented, the named method runs exactly once with the exact body and trace context, and the client gets exactly one whole response with its id and the returned bytes (none for oneway), or a heartbeat answer, or a client error when names are missing; a failure is never reported as success. A disconnection at any byte ends the work on that connection and leaves others unharmed.",
  ["inputs","schedules","crash_points"],"every request, every fragmentation, every offset of disconnection, concurrent connections",
  "no existing test drives this listener with fragmentation or disconnections",
  [SL,BL],[("exact reads",SL+":_readexactly"),("one thread per connection",SL+":SockListener")])
p("C08","Asyncio client: every call gets its own response",
  "Whatever the order, fragmentation, duplication or unrelated extra responses with which a server answers concurrent calls, each call returns (or passes to its callback, exactly once) the content of the response that carries its own request id. Every request on the wire is well formed and carries the given content, headers, trace context and time limit under an id no other outstanding call uses.",
  ["inputs","schedules","histories"],"every set of concurrent calls, every permutation, duplication and segmentation of the responses, every payload",
  "the tests use a real in-process listener which never reorders deliberately, duplicates or fragments",
  [AC,"anthunder/helpers/request_id.py"],[("request id to event/response maps",AC+":request_mapping, response_mapping"),("single reader per connection",AC+":_recv_response")])
p("C09","Asyncio client: failures reach exactly the calls they concern, and it recovers",
  "A call never returns a value for a request that failed: an error status raises an error naming that status, silence raises a timeout, a lost connection, an undecodable response, a refused connection or an unencodable request raises. Other calls on the same client are unaffected unless their connection is lost, and calls made afterwards, however many concurrently, reconnect and succeed.",
  ["fault_sequences","schedules","histories"],"every sequence of error statuses, silent requests, disconnections at any point, undecodable responses, encode failures and refused connections",
  "the tests cover one timeout; faults of the connection never occur",
  [AC],[("status check",AC+":invoke"),("retry and reconnect",AC+":_send_request, _get_connection"),("wake-up of waiting calls",AC+":_recv_response")])
p("C10","Synchronous client: a call returns its own complete response or raises",
  "A synchronous call returns exactly the content of the success response that carries its id, however fragmented and however large request and response are. In every other case (error status, foreign id, malformed or incomplete response, disconnection at any byte, a silent or stalled server once the time limit is over) it raises, does not block past the time limit plus its fixed grace, and leaves later calls unharmed.",
  ["inputs","fault_sequences"],"every payload size, fragmentation, offset of disconnection, error status and stall",
  "the only test of this client needs an external server; no failure path is exercised",
  [SC,CN],[("selector loop with deadline",SC+":invoke_sync"),("id and status check",SC+":invoke_sync")])
p("C11","End to end, a remote call is the same as a local one",
  "For each supported pairing of client and listener, the service sees exactly the bytes, header names and trace context the caller passed, runs once per call, and the caller receives exactly the bytes the service returned, for any content and any number of concurrent callers, services and methods. A failing service makes exactly its own caller fail.",
  ["inputs","schedules","histories"],"every content, interface/method name, size and concurrency level, for the synchronous client with both listeners and the asyncio client with the asyncio listener",
  "the tests use small fixed payloads and one pairing",
  [SC,AC,SL,AL],[("request/response path","anthunder/client, anthunder/listener")])
p("C12","Trace context survives injection, headers and the wire",
  "Injecting a span context into a carrier and extracting it yields the same trace id, span id and baggage; the same holds when the carrier is a header map that was encoded, sent and decoded, so the service sees the caller's trace. A carrier without trace information starts a new trace, unrelated header entries never leak into the context, and an illegal one is rejected as an invalid carrier.",
  ["inputs"],"every trace id, dotted span id, and baggage map, with arbitrary unrelated header entries",
  "tests use one or two fixed contexts",
  ["mytracer/tracer.py","mytracer/span_context.py",SH],[("prefix based inject/extract","mytracer/tracer.py:inject, extract"),("header build","anthunder/protocol/_sofa_header.py:build_header")])
p("C13","Spans of a trace get unique, hierarchical ids and inherit the trace",
  "In any tree of spans created by child-of and follows-from references, every span carries the trace id and baggage of the span it refers to, a child's id extends its parent's by one number, a follower's id is a sibling of the span it follows, and no two spans of the tree share an id. This also holds when several threads create them. Operation name, tags and start time are those requested, and creating spans never alters existing ones.",
  ["inputs","histories","schedules"],"every sequence of span creations (root, child, follower, from extracted contexts) with any names, tags and baggage, from any threads",
  "tests create a handful of spans in one order",
  ["mytracer/_rpc_id.py","mytracer/span_context.py","mytracer/tracer.py","mytracer/span.py","mytracer/helpers.py"],[("child counter and sibling counter","mytracer/_rpc_id.py"),("reference handling","mytracer/tracer.py:start_span")])
p("C14","New trace ids are unique",
  "Two traces started by one process never get the same trace id, whatever the clock does as long as at most 8001 are started per millisecond and the clock does not go back, and from whichever threads they are started. The id is the host address in hexadecimal, the time in milliseconds, a four digit sequence number and the process id; a given id is kept as it is.",
  ["inputs","schedules","histories"],"every number of traces per millisecond up to the documented sequence range, every host address, every process id, every interleaving of threads",
  "a test compares two ids",
  ["mytracer/_trace_id.py"],[("cyclic sequence","mytracer/_trace_id.py:_sequence")])
p("C15","Request ids are unique, positive and wrap around",
  "Request ids drawn from one process are 31-bit non-negative numbers, and none repeats before the whole range has been used, whatever the random start and from whichever threads they are drawn; after the largest comes zero. Requests of every kind (two-way, oneway, heartbeat) draw from the same sequence.",
  ["inputs","schedules","histories"],"every starting point including the ends of the range, every mix of request kinds, every interleaving of threads",
  "a test draws a few ids; the wrap-around is unreachable by chance",
  ["anthunder/helpers/request_id.py",RQ,HB],[("cyclic iterator","anthunder/helpers/request_id.py:RequestId")])
p("C16","The LRU container is a bounded map that disposes each value exactly once",
  "Under any sequence of gets, sets, deletes, lookups, and clears the container equals a bounded map in which reading or writing a key makes it the most recently used and exceeding the bound removes the least recently used entry. The dispose callback is called exactly once for each value that leaves the container (overwritten, evicted, deleted or cleared) and never for one that is still in it; under threads the bound and this accounting still hold.",
  ["histories","schedules","inputs"],"every sequence of operations for every capacity, sequential and concurrent",
  "no test of the container exists",
  [RU],[("ordered dict with re-insertion",RU),("lock",RU)])
p("C17","Pool manager: one live pool per address, bounded, closed when evicted",
  "Asking for the same address returns the same pool until that pool is evicted as the least recently used or the manager is cleared; there are never more pools than the configured maximum, evicted and cleared pools are closed with their idle connections, and live pools are not. A scoped connection is handed back to its pool however the scope ends; concurrent requests for one address agree on one pool.",
  ["histories","schedules"],"every sequence of pool requests, scopes (normal and raising), clears, for every capacity, sequential and concurrent",
  "tests ask for two pools in a fixed order",
  [PM,RU,CP],[("LRU of pools with close as dispose function",PM),("scope",PM+":connection_scope")])
p("C18","Connection pool: limits and counts are kept",
  "In every history of taking and returning connections the pool never has more connections open than its maximum, never keeps more idle ones than configured, and its count equals the number of connections it handed out or keeps; a refused or failed attempt to get a connection changes nothing. Surplus returned connections, and those returned after the pool is closed, are closed.",
  ["histories","fault_sequences","schedules"],"every sequence of get, put, peer disconnect, failing connection creation and close, for every combination of limits, sequential and concurrent",
  "tests exercise one pool size with one order of operations",
  [CP],[("counter under lock",CP+":_new_conn"),("LIFO queue of idle connections",CP+":put_conn")],
  state=[("num_connections","connections handed out or idle",CP)])
p("C19","A pooled connection is handed to one user at a time, alive and clean",
  "No connection is ever held by two users at once, whatever the interleaving of threads. A connection that was closed by the peer, was closed locally, or still has unread bytes of an earlier exchange is never handed out; as long as no idle one is broken, idle ones are reused instead of opening another.",
  ["histories","schedules","fault_sequences"],"every sequence of get/put/peer data/peer close, sequential and concurrent",
  "no test uses a pool from two threads or breaks a pooled connection",
  [CP,"mysockpool/utils.py","mysockpool/_wait.py"],[("readiness check before hand-out","mysockpool/utils.py:is_connection_dropped"),("thread-safe queue",CP)])
p("C20","Socket connections send and receive exactly the given bytes",
  "Sending all of any byte string delivers exactly these bytes in order however slowly the peer reads, and reading exactly n bytes returns exactly the next n bytes however they are fragmented, without consuming more. If the peer closes before n bytes arrived, the read fails instead of returning less or blocking. Waiting for sockets reports exactly those that are ready.",
  ["inputs","schedules","fault_sequences"],"every content and size (beyond socket buffers), fragmentation, buffer size, slow reader and point of disconnection",
  "tests never exceed a socket buffer or fragment",
  [CN,"mysockpool/_wait.py"],[("wait-for-write/-read loops",CN+":sendall, recvexactly")])
p("C21","The mesh control client reports success only when the mesh did",
  "Creating a client or listener registers the application with exactly the settings given. The registration is posted once successfully, retried after a failure, not repeated after success, even when started concurrently, and omits exactly the empty settings. Every subscribe, unsubscribe, publish and unpublish is posted to its documented endpoint with exactly its data, and anything but a 200 answer with success true raises an error.",
  ["inputs","fault_sequences","schedules"],"every application setting, every operation sequence, every sequence of answers (status, JSON, success value, connection failure)",
  "tests use one always-successful mock answer",
  [MC],[("post and verdict",MC+":_post"),("startup under lock",MC+":startup")])
p("C22","Calls go to the address the configuration and subscriptions say",
  "A call to an interface goes to its configured address (a bare host gets the default port) and to the local mesh otherwise; a successful subscription routes it to the mesh, a successful unsubscription removes the routing, and a failed one changes nothing. A configured address is never silently replaced.",
  ["histories","inputs","fault_sequences"],"every sequence of configuration, subscribe and unsubscribe operations with any mesh outcome, on any set of interfaces",
  "tests configure one interface once",
  [BC,"anthunder/__init__.py","anthunder/helpers/immutable_dict.py"],[("service map","anthunder/__init__.py:SERVICE_MAP"),("address resolution",BC+":_get_address")])
p("C23","Heartbeats: answered truthfully, sent periodically, surviving failures",
  "A heartbeat call reports true exactly if the peer answers that heartbeat with success, and false for an error status. A client attached to a mesh sends a heartbeat every interval, and failed, refused or unanswered heartbeats do not end the series nor disturb ordinary calls.",
  ["fault_sequences","schedules","histories"],"every sequence of heartbeat outcomes interleaved with calls",
  "the interval is 30 s and no test reaches the second heartbeat; no failing heartbeat is tried",
  [AC,HB,AL],[("timer coroutine",AC+":_heartbeat_timer"),("status evaluation",AC+":invoke_heartbeat")])
p("C24","Oneway calls: one oneway frame, executed once, never waited for",
  "A oneway call sends exactly one frame marked oneway with the given content and headers and returns without waiting for the service; the service runs exactly once and no response is sent. It holds for every client and listener, for any content, interleaved with two-way calls on the same connections, which stay correctly paired.",
  ["inputs","histories","schedules"],"every mix of oneway and two-way calls with any content, including services that block, fail or return anything",
  "one test sends oneway calls and only looks at the service",
  [AC,SC,AL,SL],[("packet type oneway",AC+":invoke_oneway, "+SC+":invoke_oneway"),("no response for oneway",AL+":_dispatch, "+SL+":handle")])
p("C25","Publishing tells the mesh exactly the registered interfaces",
  "Publishing posts each interface registered in the process once with the listener's port and application name, unpublishing revokes each of them, and registering an interface (again) routes its requests to the class registered last with the arguments given. Without a mesh these operations do nothing and the listener still serves.",
  ["histories","inputs"],"every sequence of registrations, publish and unpublish with any names, arguments and mesh outcomes",
  "one test publishes one interface",
  [BL,AL,SL,MC],[("interface mapping",BL+":interface_mapping"),("publish loop",BL+":publish, unpublish")])
p("C26","Nothing is left behind by calls, requests and connections that are over",
  "However a call ends (answered, failed, timed out, cancelled, refused, its connection lost) and however a peer of a listener behaves and leaves, once it is over nothing of it is kept: no object, task, future, thread, socket, file descriptor or message. A process that makes or serves calls for ever does not grow with their number.",
  ["histories","fault_sequences"],"every repetition of every mix of outcomes of calls, requests and disconnections, with any client and listener",
  "tests make a handful of calls in one process and look at none of these",
  [AC,SC,AL,SL,CP],[("table of pending requests",AC+":request_mapping"),("connection taken in a scope",SC),("task per request",AL)],
  state=[("request_mapping, response_mapping, connection_mapping","calls and connections in progress",AC)])
p("C27","Shutting a listener down is orderly",
  "shutdown() returns although requests are running, those are still completed and answered, and run_forever() returns once the peers have left. From then on connections to its address are refused and nothing sent on a new one is executed; a request that races with it is answered correctly or sees its connection refused or closed. Other listeners are not affected, a repeated shutdown is harmless, and a new listener serves on the address at once.",
  ["histories","schedules"],"every state of running requests, idle connections and racing callers at the shutdown, and every number of restarts",
  "tests shut listeners down at the end, when nothing is looked at any more",
  [AL,SL],[("stop of the server task",AL+":shutdown"),("server shutdown and close",SL+":shutdown")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

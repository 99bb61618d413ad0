import json
F=[("C03","1244fd9","a header map (or message) whose strings are not valid UTF-8 raised UnicodeDecodeError instead of the decode error"),
("C06","692f42f","a header map that cannot be decoded left the content of that request unread, so that later requests on the connection were misread"),
("C05","969d384","a service that returns empty bytes was answered with an error"),
("C05","3bb789a","a request whose result cannot be serialised was never answered"),
("C05","42ed467","a request with an illegal trace context was never answered"),
("C04","a291078","when the peer half-closed, the previous request was answered a second time"),
("C07","90ae9be","a peer that disconnected in the middle of a frame left a handler thread of the threaded listener spinning for ever"),
("C07","cb9059d","the threaded listener answered oneway requests"),
("C20","2762040","sending more than fits the socket buffer on a (default, non-blocking) connection raised after a partial send"),
("C20","08803bb","reading exactly n bytes looped for ever when the peer had closed"),
("C19","b22df69","a dropped pooled connection was closed and then handed out"),
("C18","d15f61e","the connection count was updated without a lock, counted failed creations, and missed connections created when the pool was built"),
("C16","ff6c0de","overwriting a key did not make it the most recently used"),
("C10","3947841","a synchronous call span for ever (until its deadline) after the server closed before the whole response"),
("C10","0deb30b","a synchronous call sent only part of a large request; an unencodable request was reported as an unrelated error"),
("C01","e648c09","a float time limit (accepted by the clients) could not be encoded"),
("C13","e9eb6a5","start_span with tags of more or fewer than two characters raised, others were mangled"),
("C13","9455eab","two spans following from the same span without known parent got the same id"),
("C24","c71fe41","AioClient.invoke_oneway sent an ordinary two-way request"),
("C09","dc49472","AioClient returned the content of error responses as a result"),
("C23","dc49472","heartbeat responses were dropped, so that a heartbeat call never returned"),
("C23","c088796","the first failing heartbeat ended the heartbeat timer"),
("C09","83f2fb5","AioClient reported a request that could not be sent as an unrelated TypeError"),
("C09","66b8dcd","a request that cannot be encoded tore down the connection of other calls"),
("C09","a3b1b5b","with several requests on a broken connection all but one failed with KeyError instead of reconnecting"),
("C08","9a7cb21","a response that arrived before the request was flushed completely was lost and the call hung"),
("C09","18069b5","a response that cannot be decoded left its call waiting for ever"),
("C09","21af77d","calls in flight hung when their connection was lost"),
("C13","2dbdf02","set_baggage_item raised TypeError always"),
("C18","43a50c9","an OSError while topping up the free connections lost the idle connection and its slot"),
("C12","9ed9074","baggage items named like a parameter (self, reference, expand, ...) were rejected or broke building the header"),
('C05','db96e7c','a service that raises SystemExit ended the event loop of the asyncio listener'),
('C24','aa0f66f','oneway requests that failed were answered with a failure response'),
('C05','3aa8ea0','a request whose service raised StopIteration was never answered'),
('C10','503a4ef','a large request to a slowly reading server made a synchronous call block far past its time limit'),
('C23','61c76dd','one heartbeat that was never answered ended the series'),
('C11','0149895','the threaded listener (backlog 5) let connections of 24 concurrent callers be reset'),
("C26","2474753","a timed-out AioClient.invoke_sync left its task, request and event behind for ever"),
("C27","2fca22a","after SockListener.shutdown() callers could still connect and waited in vain"),
("C27","de9621e","a SockListener could not be started on the address of an earlier one while its connections lingered in TIME_WAIT"),
("C27","ee61f01","AioListener.shutdown() closed the server from another thread than its loop's: connections that came in at that moment could abort the whole process or wait for ever"),
("C13","f977d2c","two spans started by two threads from the same span could get the same id"),
("C17","5e6cfe0","a connection returned while another thread closed its pool was put into the closed pool's queue and stayed open"),
("C18","eb5600c","a connection taken out while another thread closed the pool was neither handed out nor closed"),
("C13","16dd6eb","a start time of 0 was ignored and the current time taken instead"),
("C13","0ba0e18","entering a span as a context manager replaced the start time it was given by the current time"),
]
with open('/verif/known_findings.jsonl','w') as f:
    for p,c,w in F:
        f.write(json.dumps(dict(property=p,status="fixed",commit=c,what="fixed: property=%s %s %s"%(p,c,w)))+"\n")
    f.write(json.dumps(dict(property="C18",status="known",key="topup-at-maximum",what="getting a connection from a pool that has an idle one but is at its maximum, with fewer idle than min_free_connections after taking it, raises EmptyPoolError and leaks the idle connection and its slot (existing test test_pool pins the error)"))+"\n")
    f.write(json.dumps(dict(property="C27",status="known",key="aio-run-forever",what="AioListener.run_forever() never returns after shutdown(): the event loop is not stopped (requests that are running and idle connections would have to be tracked to stop it in order)"))+"\n")

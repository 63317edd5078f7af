# Property texts; lib/mkdocs.py writes properties.jsonl and MANIFEST.json from them.
R = 'src/sofa/pbrpc/'
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, level_note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[R + f for f in files], mech=[dict(name=n, where=w) for n, w in mech], level_note=level_note, observe=observe))

P('B01', 'Zero-copy buffers preserve every byte and bound every access',
  'Whatever sequence of writes, reservations, back-ups, patches, appends, splits, reads and skips is applied, a message buffer yields exactly the bytes written, in order, reports counts equal to them, and never touches memory outside the blocks it owns. Blocks shared by several buffers stay alive until the last one lets go and are then freed exactly once.',
  ['inputs', 'histories'], 'every operation sequence up to the stated length, with every size argument and every data byte symbolic',
  'The buffer tests run a few fixed layouts; block boundaries, partial back-ups and reservations that straddle blocks depend on exact sizes and orders.',
  ['buffer.h', 'buffer.cc', 'buf_handle.h', 'tran_buf_pool.h'], [('ReadBuffer', R + 'buffer.cc'), ('WriteBuffer', R + 'buffer.cc'), ('TranBufPool', R + 'tran_buf_pool.h')],
  'Bounded model checking of the compiled buffer code: operation kinds and sizes enumerated exhaustively within the bound, data bytes decided by z3.')
P('F01', 'Server binary framing is exact for every split of the byte stream',
  'However a sequence of well-formed requests is cut into network reads, the server delivers exactly those requests, each once, in order, with unchanged meta and body. A stream that is not a well-formed request sequence is refused by closing that connection, and no byte sequence crashes the server or reads outside the received bytes.',
  ['inputs', 'schedules'], 'all header and body bytes, all ways of cutting the stream into reads, within the stated stream lengths',
  'Tests send whole messages over loopback, which almost never splits a header or a message across reads and never sends hostile headers.',
  ['rpc_server_message_stream.h', 'binary_rpc_request_parser.cc', 'binary_rpc_request.cc', 'rpc_message_header.h'], [('RpcServerMessageStream::on_read_some', R + 'rpc_server_message_stream.h'), ('BinaryRpcRequestParser', R + 'binary_rpc_request_parser.cc')],
  'Bounded symbolic execution of the real stream, parser and buffer code over a socket stand-in; every cut and every byte within the bound.')
P('F02', 'Client framing is exact for every split of the byte stream',
  'However the responses are cut into network reads, a client connection delivers exactly the messages the server sent, each once, in order and unchanged. A header with a bad magic or inconsistent or negative sizes closes the connection; nothing a server sends crashes the client or makes it read outside the received bytes.',
  ['inputs', 'schedules'], 'all header and body bytes, all cuts into reads, within the stated stream lengths',
  'Loopback tests deliver whole messages; negative or inconsistent sizes and header splits are never produced by the peer under test.',
  ['rpc_message_stream.h', 'rpc_message_header.h'], [('RpcMessageStream::split_and_process_message', R + 'rpc_message_stream.h'), ('identify_message_header', R + 'rpc_message_stream.h')],
  'Bounded symbolic execution of the real client stream over a socket stand-in.')
P('F03', 'HTTP requests are framed exactly and hostile HTTP is refused safely',
  'However HTTP requests are cut into reads, mixed with binary requests or pipelined, each is delivered once with the method, path, query, headers and exactly the announced number of body bytes. Any other byte sequence either waits for more input or closes the connection; it never crashes the server, and a body length that cannot be represented or has not arrived never yields a request.',
  ['inputs', 'schedules'], 'all bytes of the variable fields, all Content-Length digit strings of the stated lengths, all cuts into reads',
  'The HTTP tests parse a few complete literal requests; boundary lengths and arbitrary cuts are unreachable by examples.',
  ['http_rpc_request_parser.cc', 'http_rpc_request.cc', 'rpc_request_parser.cc', 'rpc_server_message_stream.h'], [('HTTPRpcRequestParser::Parse', R + 'http_rpc_request_parser.cc'), ('HTTPRpcRequest::ParsePath', R + 'http_rpc_request.cc')],
  'Bounded symbolic execution of the real parser and stream.')
P('S01', 'Every queued message is sent whole, once and in order, and never stalls',
  'Messages handed to a connection by any number of threads reach the wire whole, never interleaved, each exactly once, in the order each thread submitted them, however the network accepts partial writes and whenever the connection becomes ready. Each message gets exactly one outcome, and on a healthy connection none stays queued when the connection is idle.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of two senders and the network thread within the stated preemption bounds, all partial-write lengths',
  'The lost-wakeup and token races depend on interleavings of a few instructions that tests hit by luck only.',
  ['rpc_message_stream.h', 'rpc_server_message_stream.h'], [('try_start_send / send token', R + 'rpc_message_stream.h'), ('server side try_start_send / put_into_pending_queue', R + 'rpc_server_message_stream.h'), ('get_from_pending_queue', R + 'rpc_message_stream.h'), ('on_write_some', R + 'rpc_message_stream.h')],
  'Exhaustive exploration of schedules (scheduling points at every atomic, volatile and lock operation) with state merging, data symbolic.')
P('S02', 'A closed connection is closed once, completely and for good',
  'Whatever interleaving of connecting, connect timeout, sending, network faults and close() calls from any thread occurs, a connection ends closed at most once: its owner is told exactly once, the socket is shut, nothing stays pending on it, it never becomes usable again, and every message not yet sent fails with an error. A connection nobody closed and no fault hit stays connected and keeps reading.',
  ['schedules', 'crash_points'], 'all interleavings of the stated threads within the preemption bounds, a fault or success at every connect, read and write',
  'Closing while a connection is being established is a window of a few instructions; tests close only idle connections.',
  ['rpc_byte_stream.h', 'rpc_message_stream.h', 'rpc_client_stream.h', 'rpc_server_message_stream.h'], [('RpcByteStream::async_connect/close/on_connect', R + 'rpc_byte_stream.h'), ('RpcMessageStream::on_closed', R + 'rpc_message_stream.h')],
  'Exhaustive exploration of schedules and faults with state merging over the compiled stream code.')
P('S03', 'Throughput and pending limits hold without ever wedging a connection',
  'With a throughput limit set, a connection reads or writes nothing once the quota of a slice is used up, never moves more per second than the limit plus one buffer per slice, and goes on by itself in the next slice, when the limit is raised or when it is removed, in whatever order the threads run. With a pending limit, a connection refuses to queue more only while its queue is over the limit, reports it as a full send buffer or stops receiving, and goes on as soon as the queue has drained. No configured limit however large turns into a smaller one.',
  ['schedules', 'inputs', 'histories'], 'all histories of slices, reads, writes and limit changes up to the stated length, all sizes and limits within the stated ranges, all interleavings of the maintain thread and the connection within the preemption bounds',
  'A trigger lost between the quota check and giving the token back stops a connection for good; the window is a few instructions and needs the maintain thread to tick inside it.',
  ['flow_controller.h', 'rpc_message_stream.h', 'rpc_server_message_stream.h', 'rpc_server_impl.cc', 'rpc_client_impl.cc'], [('FlowController acquire/recharge', R + 'flow_controller.h'), ('trigger_receive/trigger_send', R + 'rpc_server_message_stream.h'), ('TimerMaintain', R + 'rpc_server_impl.cc'), ('pending buffer limit', R + 'rpc_message_stream.h')],
  'Bounded symbolic execution of the compiled client and server with their maintain timers, exhaustive schedules for the races.')
P('U01', 'Text encodings are exact inverses and refuse what they cannot decode',
  'Escaping, URL-encoding, hexadecimal, base64 and number formatting are undone exactly by their inverses for every byte string, and the escaped text contains no byte its format forbids. Malformed encoded text is refused without touching memory outside the string, and trimming, splitting and replacing keep every byte that is not a separator, blank or match.',
  ['inputs'], 'every byte string up to the stated lengths, all 256 values of each byte',
  'Tests use a few ASCII strings; bytes above 0x7f, truncated escapes and control characters are where the tables are indexed out of bounds.',
  ['string_utils.cc', 'string_utils.h'], [('StringUtils', R + 'string_utils.cc')],
  'Bounded symbolic execution of the compiled functions; every byte symbolic.')
P('J01', 'JSON and protobuf messages convert into each other without loss',
  'A message rendered as JSON and parsed back gives an equal message for every field kind, repetition and nesting, and the JSON text is well formed whatever bytes the strings hold. JSON that does not fit the message type is reported as an error, and no JSON object or text crashes the converter or makes it read outside the text.',
  ['inputs'], 'every value of every scalar kind, all bytes of strings and of the free part of the stated JSON texts',
  'Tests convert one sample message; extreme numbers, wrong types, bad base64 and truncated texts are not sampled.',
  ['pbjson.cc', 'pbjson.h'], [('jsonobject2pb', R + 'pbjson.cc'), ('pb2json', R + 'pbjson.cc'), ('json2pb', R + 'pbjson.cc')],
  'Bounded symbolic execution of the converter and of the bundled rapidjson over a message model with every field kind.')
P('C01', 'Every call completes exactly once, with the right outcome',
  'Whatever mix of responses, timeouts, cancellations, send failures, lost connections, reconnections and client shutdown occurs, in whatever order the client threads run, every asynchronous call runs its completion callback exactly once and every synchronous call returns. The outcome is the response, or the error that really ended the call; a call that completed is never completed again, sent or answered afterwards, and a lost connection fails the calls waiting on it at once.',
  ['schedules', 'histories', 'crash_points'], 'all histories of calls, answers, faults and clock steps up to the stated length, and all interleavings of two racing threads within the stated preemption bounds',
  'Tests complete calls one way at a time; answer, timeout and close racing for one call, or following each other in unusual orders, are not produced.',
  ['rpc_client_impl.cc', 'rpc_client_stream.h', 'rpc_controller_impl.h', 'rpc_timeout_manager.h', 'simple_rpc_channel_impl.cc'], [('RpcClientImpl::CallMethod/DoneCallback', R + 'rpc_client_impl.cc'), ('RpcClientStream controller map', R + 'rpc_client_stream.h'), ('RpcControllerImpl::Done', R + 'rpc_controller_impl.h')],
  'Bounded symbolic execution of the whole public client API over a socket stand-in, with exhaustive schedules for the races.')
P('C02', 'A response completes its own call and no other',
  'Each response received on a connection completes exactly the pending call whose sequence id it carries, with exactly the body and error it carries, in whatever order answers arrive. Responses that are late, repeated, unknown, not responses, truncated or undecodable complete no other call, and no response, however malformed, crashes the client.',
  ['inputs', 'histories'], 'all orders of answers and all values of the meta fields and of the bodies within the stated sizes',
  'Tests talk to the matching server, which always answers each call once, in a valid way.',
  ['rpc_client_stream.h', 'rpc_client_impl.cc', 'rpc_controller_impl.h'], [('RpcClientStream::on_received', R + 'rpc_client_stream.h'), ('RpcClientImpl::DoneCallback', R + 'rpc_client_impl.cc')],
  'Bounded symbolic execution of the whole public client API; meta fields and bodies symbolic.')
P('C03', 'A call times out at its own deadline',
  'A call that is not answered ends with the timeout error when the timeout it asked for has passed: never before, and no later than one timer period (100 ms) after it, whatever other calls with other timeouts are pending, are answered or are removed in between. The timeout in force is the one set on the call, otherwise the one declared by its method or service.',
  ['inputs', 'histories'], 'all timeout values in milliseconds of up to two calls within the stated range, all histories of calls, answers and clock steps up to the stated length',
  'Tests use one timeout at a time and sleep; the order of several deadlines in one queue, and removals around them, are not varied.',
  ['rpc_timeout_manager.h', 'rpc_client_impl.cc', 'timeout_manager_impl.cc', 'rpc_controller_impl.h'], [('RpcTimeoutManager::check_timeout', R + 'rpc_timeout_manager.h'), ('RpcClientImpl::CallMethod (timeout choice)', R + 'rpc_client_impl.cc')],
  'Bounded symbolic execution of the public client API with a clock the harness steps; timeouts symbolic.')
P('T01', 'A timer event fires when due, as often as promised, and ends once',
  'An event added to the timer manager runs its callback after its interval, never early; a one-shot event runs exactly once with TIMEOUTED, a repeating one until it is removed. erase() and clear() end every event they report with one ERASED or CLEARED callback, after which it never starts again, whatever races with the timer thread. Callbacks stay alive while they run.',
  ['schedules', 'histories'], 'all histories of add, repeat, erase, clear and clock steps up to the stated length, and all interleavings of the timer thread with one racing operation within the stated preemption bound',
  'Tests add and erase from one thread at leisure; an erase or clear in the window where the timer delivers its batch is not produced.',
  ['timeout_manager.h', 'timeout_manager_impl.h', 'timeout_manager_impl.cc'], [('TimeoutManagerImpl::timer_run', R + 'timeout_manager_impl.cc'), ('TimeoutManagerImpl::erase/clear', R + 'timeout_manager_impl.cc')],
  'Exhaustive exploration of schedules and histories over the compiled timer manager.')
P('Z01', 'Compression returns the same bytes and survives any input',
  'Whatever is written through a compressing stream in whatever pieces, with back-ups and flushes, comes out of the matching uncompressing stream unchanged and whole, however the compressed bytes are cut and however the reader reads, skips, backs up or stops early. A compressed request or response reaches the other side as the message that was sent, compressed as the caller asked; bytes that are not a whole compressed body fail that one call with a parse error and neither crash the process, touch memory outside the buffers, nor pass for a shorter message.',
  ['inputs', 'histories'], 'all contents up to the stated lengths, all writer and reader operation sequences and cuts within the bounds, all hostile bytes of the stated lengths, sizes around the 64 KB block boundary, every compress type',
  'Tests compress a few whole messages and read them back in one go; malformed bodies, early destruction, streams in a row and exact block boundaries never occur.',
  ['compressed_stream.cc', 'gzip_stream.cc', 'block_wrappers.cc', 'lz4.cc', 'binary_rpc_request.cc', 'rpc_client_impl.cc'], [('GzipInputStream/GzipOutputStream', R + 'gzip_stream.cc'), ('BlockCompressionInputStream/OutputStream', R + 'block_wrappers.cc'), ('LZ4_compress/LZ4_uncompress_unknownOutputSize', R + 'lz4.cc'), ('ProcessRequest', R + 'binary_rpc_request.cc'), ('DoneCallback', R + 'rpc_client_impl.cc')],
  'Bounded symbolic execution of the compiled streams, of the bundled LZ4 and of the whole client and server around them; zlib and snappy are contract models.')
P('V01', 'The server answers every request once, with its own result',
  'Each request delivered to a service is answered by exactly one response, carrying its sequence id and exactly the message or failure its service call produced, whatever the order and the threads in which calls finish. Nothing is sent after the server timeout the request asked for or on another connection; losing the connection loses only its own responses, and every message and counter of a finished call is released.',
  ['histories', 'schedules'], 'all histories of requests, completions, partial writes, lost connections and clock steps up to the stated length, and all interleavings of two completions, or one completion and a lost connection, within the preemption bound',
  'Tests use services that reply at once, in order, on one connection that stays up.',
  ['rpc_request.cc', 'binary_rpc_request.cc', 'rpc_server_impl.cc', 'rpc_server_stream.h'], [('RpcRequest::CallMethod/OnCallMethodDone', R + 'rpc_request.cc'), ('BinaryRpcRequest::Assemble*Response', R + 'binary_rpc_request.cc')],
  'Bounded symbolic execution of the whole public server API over a socket stand-in, with exhaustive schedules for the races.')
P('V02', 'A request runs exactly the method it names or is refused with the reason',
  'A binary request is handed to exactly the method its full name denotes, whatever other services are registered and in whatever order. A name without a dot, an unknown service or method, or a message that does not parse is answered with its own error code and reaches no service, and the connection goes on working.',
  ['inputs', 'histories'], 'all single-byte changes, cuts and insertions of registered names, services sharing a cache slot, every registration order, symbolic bodies',
  'Tests call the few existing names; near misses and hash collisions between service names are not sampled.',
  ['service_pool.h', 'rpc_request.cc', 'binary_rpc_request.cc'], [('ServicePool::FindService', R + 'service_pool.h'), ('RpcRequest::FindMethodBoard', R + 'rpc_request.cc'), ('BinaryRpcRequest::ProcessRequest', R + 'binary_rpc_request.cc')],
  'Bounded symbolic execution of the whole public server API; the changed byte of the name stays symbolic through the hash and the lookups.')
P('V03', 'Connection limits and keep-alive act exactly as configured',
  'A server admits a connection exactly when the limit in force allows it, refuses the others at once, counts the open ones correctly and goes on accepting whatever it refused or lost. With keep-alive set, a connection is closed when it has been idle for that time and no call on it is in progress, and never otherwise.',
  ['histories', 'inputs'], 'all histories of connects, losses, limit changes, requests, completions, writes and clock steps up to the stated length',
  'Tests hold one or two connections and do not wait for idle closing with calls in progress.',
  ['rpc_server_impl.cc', 'rpc_listener.h', 'rpc_byte_stream.h'], [('RpcServerImpl::OnAccepted', R + 'rpc_server_impl.cc'), ('RpcServerImpl::TimerMaintain', R + 'rpc_server_impl.cc'), ('RpcListener::on_accept', R + 'rpc_listener.h')],
  'Bounded symbolic execution of the whole public server API over a socket and clock stand-in.')
P('V04', 'A server starts completely or not at all, and always stops',
  'Start() either leaves a working server or fails and leaves nothing behind, whichever step fails, and can be repeated. Stop() returns, closes the listener and every connection and releases everything, whatever accept, request, completion or maintenance runs at the same moment. A listener whose accept fails is reported once, with the right code, and restarted, while open connections go on.',
  ['schedules', 'crash_points'], 'a fault at every step of Start() and at every accept, and all interleavings of Stop() with one event on the network, worker or maintenance thread within the preemption bound',
  'Tests stop idle servers and never make a step of Start() fail.',
  ['rpc_server_impl.cc', 'rpc_listener.h', 'io_service_pool.cc', 'thread_group_impl.h', 'timer_worker.h'], [('RpcServerImpl::Start/Stop', R + 'rpc_server_impl.cc'), ('RpcServerImpl::RestartListen', R + 'rpc_server_impl.cc'), ('ThreadGroupImpl::start/stop', R + 'thread_group_impl.h')],
  'Exhaustive exploration of schedules and fault points with state merging over the whole public server API.')
P('V05', 'Every HTTP call gets one well-formed HTTP response with its own outcome',
  'An HTTP request that names a method (GET with a "request" parameter, POST with JSON, or POST accepting protobuf) reaches that method once, with exactly the message it carries. It is answered by one HTTP/1.1 response whose Content-Type and Content-Length fit its body and whose body is the JSON or protobuf form of that call\'s response, or a JSON string with the code and the reason of the failure. A body that does not parse or a path that names nothing is answered the same way, and the connection goes on working. Responses on one connection leave in the order of their requests.',
  ['inputs', 'histories'], 'symbolic body, reason and path bytes in every kind of request, bodies of any shape up to the stated length, two requests in a row and two in flight',
  'Tests send a few fixed requests, one at a time, with harmless characters, and look at the status line.',
  ['http_rpc_request.cc', 'http_rpc_request_parser.cc', 'rpc_request.cc'], [('HTTPRpcRequest::ProcessRequest', R + 'http_rpc_request.cc'), ('HTTPRpcRequest::AssembleSucceedResponse/AssembleFailedResponse', R + 'http_rpc_request.cc'), ('HTTPRpcRequest::RenderResponse', R + 'http_rpc_request.cc')],
  'Bounded symbolic execution of the whole public server API; the response bytes are read back by an HTTP reader of the harness.')
P('W01', 'A web page request runs the servlet of its path and returns what it wrote',
  'A request that names no method runs the servlet registered for the longest leading part of its path, compared by whole components after formatting, exactly once, with the request\'s own method, path, parameters, headers, body and addresses; the client gets the status line, type and content the servlet produced. A servlet that refuses, or no servlet at all, is answered as method not found. Registration takes a free path only, takes effect at once and never disturbs a request in progress; servlets handed over are deleted exactly once, others never.',
  ['inputs', 'histories', 'schedules'], 'all paths up to the stated length, all histories of registrations, removals and requests, all interleavings of a request with one or two (un)registrations within the preemption bound',
  'Tests do not request servlets at all through the server, nor register while serving.',
  ['web_service.cc', 'web_service.h', 'http_rpc_request.cc'], [('WebService::FindServlet', R + 'web_service.cc'), ('WebService::RegisterServlet/UnregisterServlet', R + 'web_service.cc'), ('WebService::RoutePage', R + 'web_service.cc')],
  'Bounded symbolic execution of the whole public server API, with exhaustive schedules for the races.')

COMMON_ASSUMPTIONS = [
 'protobuf, Boost.Asio, Boost posix_time and iostreams are replaced by the contract-level stand-ins of /verif/shim (DESIGN.md)',
 'sequential consistency; scheduling points are lock/condition operations, atomics and volatile accesses',
 'memory allocation succeeds',
]
SPECS = {}
def P(id, title, parts, bounds='', assumptions=()): SPECS[id] = dict(title=title, parts=parts, bounds=bounds, assumptions=list(assumptions))

P('B01', 'Zero-copy buffers preserve every byte', [
  dict(name='write-read', harness='buffer.cpp', src=['buffer'], reach=['patched', 'multi-block', 'end'], quick=[{'args': [2, 3]}], thorough=[{'args': [3, 3], 'jobs': 8}]),
])
# every library source of the current tree except generated code, the protobuf-logging glue (harness/log.cpp stands in) and the profiler
import os, glob
_SKIP = 'common profiling tcmalloc_extension_helper boost_system_error_code'.split()
_SRC = os.path.join(os.environ.get('SX_REPO', '/repo'), 'src/sofa/pbrpc')
LIB = sorted(os.path.basename(f)[:-3] for f in glob.glob(_SRC + '/*.cc') if not f.endswith('.pb.cc') and os.path.basename(f)[:-3] not in _SKIP)
SRV = LIB
P('F01', 'Server binary framing', [
  dict(name='valid', harness='srv_framing.cpp', src=SRV, reach=['rollover', 'end'], quick=[{'args': [2, 1, 3]}, {'args': [1, 2, 2]}], thorough=[{'args': [2, 2, 2], 'jobs': 8, 'time': 800}, {'args': [3, 1, 2]}]),
  dict(name='hostile', harness='srv_hostile.cpp', src=SRV, reach=['refused', 'waiting', 'bad-meta', 'delivered', 'closed'], quick=[{'args': a} for a in ([18, 0, 1, 0], [40, 0, 1, 0], [20, 1, 1, 0], [18, 0, 1, 1], [8, 0, 0, 0])]),
])
P('F02', 'Client framing', [
  dict(name='valid', harness='cli_framing.cpp', src=LIB, reach=['rollover', 'end'], quick=[{'args': [2, 1, 3]}, {'args': [1, 2, 2]}], thorough=[{'args': [2, 2, 2], 'jobs': 8, 'time': 800}, {'args': [3, 1, 2]}]),
  dict(name='hostile', harness='cli_hostile.cpp', src=LIB, reach=['bad-magic', 'bad-size', 'waiting', 'delivered', 'closed'], quick=[{'args': a} for a in ([18, 0, 1], [5, 0, 0], [20, 1, 1])]),
])
P('F03', 'HTTP request framing', [
  dict(name='valid', harness='http_framing.cpp', src=LIB, reach=['body', 'mixed', 'end'], quick=[{'args': [2, 1, 2, 5]}, {'args': [1, 2, 2, 4]}], thorough=[{'args': [2, 2, 1, 5], 'jobs': 8, 'time': 800}, {'args': [3, 1, 1, 5]}]),
  dict(name='length', harness='http_length.cpp', src=LIB, reach=['waiting', 'delivered'], quick=[{'args': a} for a in ([1, 4, 0, 0], [3, 12, 0, 0], [10, 6, 0, 1], [10, 6, 0, 2], [10, 6, 0, 3], [19, 6, 0, 4], [20, 6, 0, 5], [12, 6, 0, 6], [2, 3, 1, 0], [2, 3, 1, 8], [2, 3, 1, 7])]),
  dict(name='hostile', harness='http_hostile.cpp', src=LIB, reach=['closed', 'open', 'refused'], quick=[{'args': [3, m, 0]} for m in range(6)] + [{'args': [5, 2, 1]}, {'args': [5, 4, 1]}]),
])
P('S01', 'Send queue', [
  dict(name='queue', harness='send.cpp', src=LIB, reach=['second-first', 'all', 'refused'], quick=[{'args': [1, 1, 0, 2, 0]}, {'args': [1, 1, 1, 2, 0], 'preempt': 4}, {'args': [1, 1, 2, 1, 1], 'preempt': 2}, {'args': [2, 1, 0, 3, 0], 'preempt': 3},{'args': [2, 0, 0, 6, 1]}, {'args': [1, 0, 1, 4, 1]}], opt={'time': 400}),
  dict(name='release', harness='send.cpp', defs=['AFTER'], src=LIB, reach=['all'], quick=[{'args': [1, 1, 0, 3, 0], 'preempt': 2}, {'args': [1, 0, 1, 3, 0], 'preempt': 3}], opt={'time': 400}),
  dict(name='server-queue', harness='send.cpp', defs=['SERVER_STREAM'], src=LIB, reach=['second-first', 'all', 'refused'], quick=[{'args': [1, 1, 0, 2, 0]}, {'args': [1, 1, 2, 1, 1], 'preempt': 2}, {'args': [2, 1, 0, 3, 0], 'preempt': 3}, {'args': [2, 0, 0, 6, 1]}], opt={'time': 400}),
  dict(name='server-release', harness='send.cpp', defs=['AFTER', 'SERVER_STREAM'], src=LIB, reach=['all'], quick=[{'args': [1, 1, 0, 3, 0], 'preempt': 2}], opt={'time': 400}),
])
P('S02', 'Connection close', [
  dict(name='life', harness='lifecycle.cpp', src=LIB, reach=['closed', 'alive', 'timeout'], quick=[{'args': [0, 2]}, {'args': [1, 2], 'preempt': 3}, {'args': [2, 1]}, {'args': [3, 2], 'preempt': 3}, {'args': [4, 3], 'preempt': 3}, {'args': [5, 3], 'preempt': 3}, {'args': [6, 1]}], opt={'time': 200}),
  dict(name='server-life', harness='lifecycle.cpp', defs=['SERVER_STREAM'], src=LIB, reach=['closed', 'alive'], quick=[{'args': [2, 1]}, {'args': [3, 2], 'preempt': 3}, {'args': [5, 3], 'preempt': 3}, {'args': [6, 1]}], opt={'time': 200}),
])
P('U01', 'Text encodings', [
  dict(name='escape', harness='strings.cpp', src=['string_utils', 'common_internal'], reach=['cescape', 'xml', 'json', 'urlenc', 'urldec', 'urlrt'], quick=[{'args': a} for a in ([0, 3], [1, 3], [2, 2], [3, 3], [4, 4], [5, 2])], thorough=[{'args': a} for a in ([0, 4], [1, 4], [2, 3], [3, 4], [4, 5], [5, 3])]),
  dict(name='binary', harness='strings.cpp', src=['string_utils', 'common_internal'], reach=['bin', 'ascii', 'u64'], quick=[{'args': [6, 7]}, {'args': [7, 0]}, {'args': [11, 0]}]),
  dict(name='refuse', harness='strings.cpp', src=['string_utils', 'common_internal'], reach=['good', 'refused'], quick=[{'args': a} for a in ([12, 4], [13, 4], [14, 3], [14, 4])], thorough=[{'args': a} for a in ([12, 5], [13, 6], [14, 3], [14, 4], [14, 5])]),
  dict(name='pieces', harness='strings.cpp', src=['string_utils', 'common_internal'], reach=['trim', 'split', 'replace'], quick=[{'args': a} for a in ([8, 4], [9, 4], [10, 4])], thorough=[{'args': a} for a in ([8, 6], [9, 6], [10, 6])]),
])
P('J01', 'JSON mapping', [
  dict(name='object', harness='pbjson.cpp', src=['pbjson'], reach=['object', 'hostile', 'array', 'number', 'refused'], quick=[{'args': [0, 3]}, {'args': [1, 0]}]),
  dict(name='text', harness='pbjson.cpp', src=['pbjson'], reach=['text', 'bad', 'ok'], quick=[{'args': [2, 2]}] + [{'args': [3, 2 if s in (5, 9, 11, 12) else 4, s]} for s in range(15)], thorough=[{'args': [2, 3]}] + [{'args': [3, 3 if s in (5, 9, 11, 12) else 5, s], 'time': 800, 'qtimeout': 300000} for s in range(15)]),
])
P('C01', 'Client calls', [
  dict(name='history', harness='client.cpp', src=LIB, reach=['success', 'timeout', 'closed', 'refused', 'replied'], quick=[{'args': [0, 1, 5]}, {'args': [0, 2, 7]}, {'args': [0, 3, 6]}], thorough=[{'args': [0, 2, 9], 'time': 800}, {'args': [0, 3, 8], 'time': 800}]),
  dict(name='race', harness='client.cpp', src=LIB, reach=['success', 'timeout', 'closed', 'end'], quick=[{'args': [1, 2, 0], 'preempt': 3}, {'args': [2, 2, 0], 'preempt': 3}, {'args': [3, 1, 0], 'preempt': 3}, {'args': [4, 1, 0], 'preempt': 2}], thorough=[{'args': [1, 2, 0], 'preempt': 4, 'time': 800}, {'args': [2, 2, 0], 'preempt': 4, 'time': 800}, {'args': [3, 1, 0], 'preempt': 5, 'time': 800}, {'args': [4, 1, 0], 'preempt': 2}], opt={'time': 300}),
])
P('C02', 'Response matching', [
  dict(name='meta', harness='client_meta.cpp', src=LIB, reach=['success', 'failure', 'unanswered', 'end'], quick=[{'args': [2, 3, 0]}, {'args': [2, 1, 1]}, {'args': [1, 2, 1]}]),
])
P('C03', 'Call timeouts', [
  dict(name='exact', harness='timeouts.cpp', src=LIB, reach=['timeout', 'success', 'end'], quick=[{'args': [2, 4, 1, 2]}, {'args': [3, 4, 1, 1]}, {'args': [3, 3, 1, 0]}], thorough=[{'args': [2, 5, 1, 2], 'time': 800}, {'args': [3, 5, 1, 1], 'time': 800}, {'args': [4, 4, 1, 0], 'time': 800}]),
])
P('T01', 'Timeout events', [
  dict(name='history', harness='timerq.cpp', src=LIB, reach=['timeout', 'erased', 'cleared', 'inside', 'end'], quick=[{'args': [0, 4]}, {'args': [4, 0]}], thorough=[{'args': [0, 5], 'time': 800}, {'args': [4, 0]}]),
  dict(name='race', harness='timerq.cpp', src=LIB, reach=['erased', 'cleared', 'end'], quick=[{'args': [1, 0], 'preempt': 3}, {'args': [2, 0], 'preempt': 3}, {'args': [3, 0], 'preempt': 3}], thorough=[{'args': [m, 0], 'preempt': 5, 'time': 800} for m in (1, 2, 3)]),
])
P('V01', 'Server responses', [
  dict(name='history', harness='server.cpp', src=LIB, reach=['success', 'failure', 'lost', 'late', 'end'], quick=[{'args': [2, 5, 3, 2]}, {'args': [1, 7, 2, 0]}, {'args': [1, 5, 3, 3]}], thorough=[{'args': [2, 6, 3, 2], 'time': 800}, {'args': [1, 8, 2, 0], 'time': 800}, {'args': [1, 6, 3, 3], 'time': 800}]),
  dict(name='race', harness='server_race.cpp', src=LIB, reach=['answered', 'lost', 'end'], quick=[{'args': [1], 'preempt': 2}, {'args': [2], 'preempt': 3}]),
])
P('V02', 'Method routing', [
  dict(name='route', harness='server_route.cpp', src=LIB, reach=['called', 'name', 'unknown', 'unparsable', 'end'], quick=[{'args': [m]} for m in (0, 1, 2)]),
  dict(name='race', harness='server_route.cpp', src=LIB, reach=['called', 'unknown', 'end'], quick=[{'args': [3], 'preempt': 3}]),
])
P('V03', 'Server connection limits', [
  dict(name='admission', harness='server_limits.cpp', src=LIB, reach=['admitted', 'rejected', 'end'], quick=[{'args': [0, 5]}], thorough=[{'args': [0, 6], 'time': 800}]),
  dict(name='keepalive', harness='server_limits.cpp', src=LIB, reach=['idle', 'busy', 'end'], quick=[{'args': [1, 6]}], thorough=[{'args': [1, 8], 'time': 800}]),
])
P('V04', 'Server shutdown', [
  dict(name='race', harness='server_race.cpp', src=LIB, reach=['end'], quick=[{'args': [m], 'preempt': 2} for m in (3, 4, 5, 6, 7, 8)]),
  dict(name='life', harness='server_life.cpp', src=LIB, reach=['failed', 'works', 'restarted', 'end'], quick=[{'args': [m]} for m in (0, 1, 2)]),
])
P('V05', 'HTTP responses', [
  dict(name='calls', harness='http_server.cpp', src=LIB, reach=['json', 'protobuf', 'failure', 'end'], quick=[{'args': [0]}]),
  dict(name='bodies', harness='http_server.cpp', src=LIB, reach=['served', 'unparsable', 'end'], quick=[{'args': [1, -1, 3]}] + [{'args': [1, s, 2]} for s in range(6)]),
  dict(name='paths', harness='http_server.cpp', src=LIB, reach=['served', 'unknown', 'end'], quick=[{'args': [2, s, 1]} for s in range(6)] + [{'args': [2, 3, 0]}], thorough=[{'args': [2, s, 2]} for s in range(6)]),
  dict(name='order', harness='http_server.cpp', src=LIB, reach=['in-order'], quick=[{'args': [3]}]),
])
P('W01', 'Web pages', [
  dict(name='paths', harness='web.cpp', src=LIB, reach=['page', 'none', 'end'], quick=[{'args': [0, 4]}], thorough=[{'args': [0, 5], 'time': 800}]),
  dict(name='registry', harness='web.cpp', src=LIB, reach=['page', 'none', 'builtin', 'unregistered', 'end'], quick=[{'args': [1, 3]}], thorough=[{'args': [1, 4], 'time': 800}]),
  dict(name='race', harness='web.cpp', src=LIB, reach=['old', 'new', 'end'], quick=[{'args': [2, k], 'preempt': 2} for k in (0, 1, 2)]),
  dict(name='servlet', harness='web.cpp', src=LIB, reach=['page', 'none', 'end'], quick=[{'args': [3, 0]}]),
  dict(name='builtin', harness='web.cpp', src=LIB, reach=['builtin', 'end'], quick=[{'args': [4, 0]}]),
])
P('S03', 'Flow control', [
  dict(name='quota', harness='flow.cpp', src=LIB, reach=['granted', 'refused', 'end'], quick=[{'args': [0, 3]}], thorough=[{'args': [0, 5], 'time': 800}]),
  dict(name='quota-race', harness='flow.cpp', src=LIB, reach=['end'], quick=[{'args': [1, 0], 'preempt': 3}], thorough=[{'args': [1, 0], 'preempt': 6, 'time': 800}]),
  dict(name='limit', harness='flow.cpp', src=LIB, reach=['throttled', 'end'], quick=[{'args': [2, 4]}, {'args': [3, 2]}], thorough=[{'args': [2, 6], 'time': 800}, {'args': [3, 3], 'time': 800}]),
  dict(name='race', harness='flow.cpp', src=LIB, reach=['end'], quick=[{'args': [m, 0], 'preempt': 3} for m in (4, 5)], thorough=[{'args': [m, 0], 'preempt': 5, 'time': 800} for m in (4, 5)]),
  dict(name='pressure', harness='flow.cpp', src=LIB, reach=['suspended', 'end'], quick=[{'args': [7, 5]}], thorough=[{'args': [7, 7], 'time': 800}]),
  dict(name='client', harness='cflow.cpp', src=LIB, reach=['throttled', 'full', 'end'], quick=[{'args': [0, 4]}, {'args': [1, 4]}, {'args': [2, 6]}], thorough=[{'args': [0, 6], 'time': 800}, {'args': [1, 5], 'time': 800}, {'args': [2, 8], 'time': 800}]),
  dict(name='client-race', harness='cflow.cpp', src=LIB, reach=['end'], quick=[{'args': [m, 0], 'preempt': 3} for m in (3, 4)], thorough=[{'args': [m, 0], 'preempt': 5, 'time': 800} for m in (3, 4)]),
])
P('Z01', 'Compression', [
  dict(name='roundtrip', harness='zip.cpp', src=LIB, reach=['whole', 'end'], quick=[{'args': [0, t, 3, 1, 0]} for t in (1, 2, 3, 4)] + [{'args': [0, 1, 4, 2, 2]}], thorough=[{'args': [0, t, 4, 2, 0], 'time': 800} for t in (1, 3, 4)] + [{'args': [0, 1, 4, 2, 2]}, {'args': [0, 2, 5, 2, 3], 'time': 800}]),
  dict(name='blocks', harness='zip.cpp', src=LIB, reach=['whole', 'end'], quick=[{'args': [1, t, 1, 0, 0]} for t in (3, 4)]),
  dict(name='hostile', harness='zip.cpp', src=LIB, reach=['accepted', 'refused', 'stopped', 'end'], quick=[{'args': [2, t, 4, k, 0]} for t in (1, 3) for k in (0, 2)] + [{'args': [2, 4, 6, 0, 0]}, {'args': [2, 4, 4, 2, 0]}], thorough=[{'args': [2, 1, 5, 2, 0], 'time': 800}, {'args': [2, 3, 5, 2, 0], 'time': 800}, {'args': [2, 4, 9, 0, 0], 'time': 800}, {'args': [2, 4, 6, 2, 0], 'time': 800}]),
  dict(name='short', harness='zip.cpp', src=LIB, reach=['twice', 'short', 'end'], quick=[{'args': [3, t, 2, 1, 0]} for t in (1, 3, 4)] + [{'args': [3, 1, 2, 1, 1]}]),
  dict(name='patterns', harness='zip.cpp', src=LIB, reach=['packed', 'end'], quick=[{'args': [4, 4, 5, 40, 0]}]),
  dict(name='server', harness='zip_server.cpp', src=LIB, reach=['both', 'end'], quick=[{'args': [0, 0]}]),
  dict(name='server-hostile', harness='zip_server.cpp', src=LIB, reach=['refused', 'accepted', 'end'], quick=[{'args': [1, 3]}]),
  dict(name='client', harness='zip_client.cpp', src=LIB, reach=['both', 'end'], quick=[{'args': [0, 0]}]),
  dict(name='client-hostile', harness='zip_client.cpp', src=LIB, reach=['refused', 'accepted', 'end'], quick=[{'args': [1, 3]}]),
])

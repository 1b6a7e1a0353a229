#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here, one entry each)."""
import json, os
R = "modules/nginx-rtmp-module/"
M = "modules/nginx-multiport-module/"
T = "modules/nginx-toolkit-module/"
C = "modules/nginx-client-module/"
S = "modules/nginx-ts-module/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Live fan-out delivers the publisher's messages exactly, in order",
     "Every RTMP player of a stream that keeps up receives exactly the audio and video messages which the stream's forwarding publisher sends while the player is joined and not paused: each once, in publish order, with unchanged type, timestamp and payload bytes. With the default wait_key on, video starts at the first key frame after joining (wait_video and interleave hold audio back accordingly), and the codec headers and metadata in force are given to a player before its first frame. It never receives a frame of another application, stream name or service id, or one sent before it joined (no GOP cache configured). Players joining, pausing or leaving at any moment do not change what the others receive.",
     ["histories", "inputs"],
     "all interleavings of publishers and players joining, sending, pausing, leaving and rejoining on several streams, and all message sizes and timestamps",
     "The repository has no test of the RTMP module at all: its 91 tests cover helper modules only; delivery depends on the history of joins and leaves.",
     [R + "ngx_rtmp_live_module.c", R + "ngx_live.c", R + "ngx_rtmp_shared_module.c", R + "ngx_rtmp_handler.c"],
     [("fan-out loop over the stream's players", R + "ngx_rtmp_live_module.c"), ("shared frame reference counting", R + "ngx_rtmp_shared_module.c")],
     [("stream", "publishers and players of one serverid/app/name", R + "ngx_live.c"), ("out ring", "frames queued to a session", R + "ngx_rtmp_handler.c")],
     ["RTMP messages received by a player connection"])
prop("C02", "One forwarding publisher per stream, chosen by priority",
     "At every moment at most one publisher's media reaches the players of a stream: the one with the highest publish priority among those accepted. A publish request whose priority is already taken on that stream is refused with a bad-name status and contributes nothing, and a name becomes available again as soon as its publisher leaves.",
     ["histories", "schedules"],
     "all sequences of publish attempts with equal and different priorities, departures (graceful and abrupt) and media from every connected publisher",
     "No existing test publishes a stream, let alone races two publishers through take-over and departure.",
     [R + "ngx_live.c", R + "ngx_rtmp_live_module.c", R + "ngx_rtmp_cmd_module.c"],
     [("priority ordered publisher list", R + "ngx_live.c"), ("non-head publishers are not forwarded", R + "ngx_rtmp_live_module.c")],
     observe=["onStatus replies", "messages received by players"])
prop("C03", "Session lifecycle: no crash, no leak, registry equals live sessions",
     "Whatever sequence of RTMP commands clients send, and however their connections end, the worker stays up and keeps serving the others, and the published registry (streams, their publishers and players) always equals the sessions actually joined. When the last session of a stream is gone the stream disappears, its name is reusable, and every pooled stream, frame and buffer taken for it is given back.",
     ["histories", "inputs"],
     "all command sequences (connect, createStream, publish, play, closeStream, deleteStream, repeated and out of order) on several connections, with clean and abrupt disconnects and names of any length",
     "Existing tests never open an RTMP session; leaks, dangling list entries and crashes depend on unusual command histories.",
     [R + "ngx_live.c", R + "ngx_rtmp_cmd_module.c", R + "ngx_rtmp_init.c", R + "ngx_rtmp_live_module.c", R + "ngx_rtmp_shared_module.c"],
     [("stream and context free lists", R + "ngx_live.c"), ("close_stream chain and session finalisation", R + "ngx_rtmp_init.c")],
     [("stream registry", "hash of streams per service id", R + "ngx_live.c")],
     ["stat pages", "process liveness", "republishing the name"])
prop("C04", "GOP cache: a new player starts on headers and a decodable key frame",
     "With GOP caching on, a player that joins a running stream first receives the current metadata and the codec headers in force, then the cached frames starting at a key frame (at an audio frame if there is no video) and then the later frames: in publish order, none twice, with payloads unchanged, every codec header before the first frame it applies to, and never an inter frame without the frame before it. With send_all on, and while the player is neither paused nor out of queue space, none is missing and the player is level with its publisher. Frames it lags behind (send_all off, or a pause) follow in order and are only ever lost as whole leading GOPs; after a change of the forwarding publisher the player is brought up anew. Timestamp correction and joining never change what other players receive.",
     ["histories", "configurations"],
     "all sequences of header, key, inter and audio frames before and after players join, cache lengths, low-latency and send-all modes, publisher restarts",
     "No test exercises the cache; correctness depends on where in the frame history a player joins.",
     [R + "ngx_rtmp_gop_module.c", R + "ngx_rtmp_codec_module.c"],
     [("frame ring and key frame chain", R + "ngx_rtmp_gop_module.c")],
     observe=["RTMP messages received by late joiners"])
prop("C05", "Inbound chunk stream: any legal chunking yields the same messages",
     "The messages the server acts on depend only on the messages the peer sent, not on how they were cut: any chunk size, header format, chunk stream id form, interleaving of chunk streams, extended timestamps and TCP segmentation yields the same message sequence with the same timestamps. Illegal input (oversized message, too many chunk streams) only ends that connection.",
     ["inputs", "schedules"],
     "all legal chunkings and segmentations of message sequences, set-chunk-size changes between messages, and illegal headers",
     "Nothing in the suite feeds bytes to the RTMP parser; the input space is unbounded and stateful (per chunk stream header compression).",
     [R + "ngx_rtmp_handler.c", R + "ngx_rtmp_receive.c", R + "ngx_rtmp_shared_module.c"],
     [("incremental chunk parser", R + "ngx_rtmp_handler.c")],
     observe=["messages relayed to a player"])
prop("C06", "Outbound chunk stream decodes to exactly the queued messages",
     "The byte stream sent to every RTMP client is a well formed chunk stream which decodes to the queued messages with their exact type, timestamp, message stream and payload, for every configured chunk size and output merging option, message size and timestamp including those needing the extended field. Partial writes and slow readers never corrupt, duplicate or interleave messages.",
     ["inputs", "schedules", "configurations"],
     "all message sizes around chunk boundaries, timestamps up to 2^32-1, chunk sizes, merge/cork settings and partial write patterns",
     "No test reads an RTMP byte stream.",
     [R + "ngx_rtmp_shared_module.c", R + "ngx_rtmp_handler.c", R + "ngx_rtmp_send.c"],
     [("chunk chain preparation", R + "ngx_rtmp_shared_module.c"), ("send chain and out ring", R + "ngx_rtmp_handler.c")],
     observe=["raw bytes received by a player"])
prop("C07", "A slow player only loses whole frames, and only its own",
     "When a player reads too slowly its queue stays bounded and only whole frames are dropped for it: what it receives is a subsequence of the published messages, in order and uncorrupted, with less important frames dropped before key frames. Other players of the stream still receive everything, and the slow player's memory is given back when it leaves.",
     ["schedules", "histories"],
     "all interleavings of publishing and stalled or resumed reading on several players, with all frame kinds and queue sizes",
     "Needs back-pressure at chosen moments; no test has a slow reader.",
     [R + "ngx_rtmp_handler.c", R + "ngx_rtmp_live_module.c", R + "ngx_rtmp_shared_module.c"],
     [("bounded out ring with priority thresholds", R + "ngx_rtmp_handler.c")],
     observe=["frames received by slow and fast players", "drop counters"])
prop("C08", "Session timers: silent peers are closed, live ones never",
     "A client that stops answering pings is disconnected after the configured ping interval plus ping timeout, and a publisher that sends no media for the configured idle time is dropped, and so is a connection which does not complete its handshake in time, while a client that keeps answering (or sending) is never disconnected by these timers. Every ping request is answered at once with the same value.",
     ["schedules", "histories"],
     "all orders of traffic, ping answers, silence and timer expiry",
     "Timer races need a schedule; no test waits on an RTMP timer.",
     [R + "ngx_rtmp_handler.c", R + "ngx_rtmp_receive.c", R + "ngx_rtmp_live_module.c"],
     [("ping event handler", R + "ngx_rtmp_handler.c"), ("idle publisher timer", R + "ngx_rtmp_live_module.c")],
     observe=["connection close times", "ping replies"])
prop("C09", "Multi-worker: players on any worker get the stream, from one owner",
     "With several workers, a stream published to any worker is delivered to players connected to any other worker: each receives the publisher's messages in order and once, whichever of publisher and players came first. When publisher and players leave and return on different workers, or a worker process dies, the stream works again without operator action, and no stale internal session keeps a name busy.",
     ["schedules", "crash_points", "histories"],
     "all placements of publishers and players on workers, orders of joins and leaves, and worker deaths at any point",
     "The suite runs single helper tests in one worker; cross-worker relays depend on scheduling of several processes.",
     [R + "ngx_live_relay_inner.c", R + "ngx_live_relay_rtmp.c", R + "ngx_live_relay.c", M + "ngx_stream_zone_module.c", M + "ngx_event_multiport_module.c"],
     [("owner lookup in shared zone", M + "ngx_stream_zone_module.c"), ("inner push/pull sessions", R + "ngx_live_relay_inner.c")],
     observe=["messages received by players on each worker", "per-worker stat pages"])
prop("C10", "Stream zone: one owner per name, released by its owner only",
     "The shared stream table maps each name to at most one owning process: registering a name returns the current owner (the caller if it was free), only the owner's removal frees it, and a process that starts or exits frees all and only its own names. It holds for any number of names up to capacity, including hash collisions; freed entries are reusable and nothing leaks.",
     ["histories", "crash_points", "inputs"],
     "all sequences of register, look up and remove by several processes, restarts, colliding names and a full table",
     "Existing tests do not touch the zone; the quantifier is over operation histories across processes.",
     [M + "ngx_stream_zone_module.c"],
     [("per-bucket lock and chains", M + "ngx_stream_zone_module.c")],
     observe=["owner slot returned", "zone state page"])
prop("C11", "Static relays forward the stream and reconnect after failures",
     "A configured push sends every message a publisher sends to each push target, and a configured pull fetches a stream when a player asks for it: in order, once, unchanged. While there is a publisher (push) or a player (pull) a failed, unanswered or lost upstream connection is retried until it works (the backup urls in turn, then, after a pause, from the first), one which works is kept, an upstream's explicit error status is passed on by closing the local publisher (push) or players (pull), and when the last publisher or player leaves the relay connection is closed and not retried.",
     ["histories", "fault_sequences"],
     "all sequences of upstream failures, timeouts, rejections, drops and recoveries of each url interleaved with local joins and leaves",
     "No test has an upstream; reconnect logic is only reachable through fault sequences.",
     [R + "ngx_live_relay.c", R + "ngx_live_relay_simple.c", R + "ngx_live_relay_rtmp.c"],
     [("relay session reconnect timers", R + "ngx_live_relay_simple.c")],
     observe=["connections and messages seen by a stub upstream"])
prop("C12", "Notify callbacks gate sessions and pair start with done",
     "With a publish or play callback configured, the session joins the stream only after the callback answered success (or failed without an answer, where that is configured to be ignored); a refusal closes that session alone with nothing delivered, and no media passes before acceptance. Every publish, play, meta and stream start callback is told once, as configured, about the right session; if done callbacks are configured exactly one done callback follows for each start when its session (its codec header, its stream) ends, and update callbacks come only for accepted sessions which are there. Late answers have no effect.",
     ["histories", "fault_sequences", "schedules"],
     "all interleavings of client commands, callback answers (success, refusal, failure, delay) and disconnects",
     "No test configures a callback; ordering depends on when the answer arrives relative to client actions.",
     [R + "ngx_rtmp_notify_module.c", R + "ngx_netcall.c", C + "ngx_http_client.c"],
     [("start/done handlers around the publish/play chain", R + "ngx_rtmp_notify_module.c")],
     observe=["requests seen by a stub callback server", "client status and media"])
prop("C13", "Access rules decide publish and play for every client",
     "A client may publish or play in an application exactly if the first allow/deny rule that names that action and matches its address allows it, or no rule matches; this holds for IPv4, IPv6 and IPv4-mapped addresses and for every protocol that can play. A denied client is disconnected without joining the stream.",
     ["configurations", "inputs"],
     "all rule lists (actions, CIDR masks, all, nesting) and client addresses",
     "No test configures access rules; the space is rule lists times addresses.",
     [R + "ngx_rtmp_access_module.c", R + "http/ngx_http_flv_live_module.c"],
     [("rule list evaluation", R + "ngx_rtmp_access_module.c")],
     observe=["publish/play outcome"])
prop("C14", "Recordings contain exactly the recorded media, as valid FLV",
     "A recording file is a valid FLV file which holds exactly the media messages which the accepted publisher of its stream sent while it was recorded (restricted to the configured kinds, video from its codec header and a key frame on), once, in order, with payload unchanged and timestamps relative to the first; a recording which is appended to goes on where it ended. A size or frame limit ends a file with the message that reaches it, an interval at the next key frame. What other sessions send (of other streams, refused, denied or still waiting for permission) never reaches the file, nor does such a session truncate it, and the recorder never writes outside the configured directory.",
     ["histories", "inputs", "configurations"],
     "all message sequences, stream names, limits, append and unique modes, publisher departures and restarts",
     "No test records anything.",
     [R + "ngx_rtmp_record_module.c"],
     [("record node open/write/close", R + "ngx_rtmp_record_module.c")],
     observe=["recorded files"])
prop("C15", "HLS playlists are consistent with the fragments on disk",
     "At every instant an HLS playlist on disk names only complete fragments that exist, in order, with a media sequence that never goes backwards and a target duration at least every fragment's duration; together the fragments contain every published frame once and in order. Fragments are cut at key frames (or at the configured maximum), and a publisher restart continues without reusing a live fragment name.",
     ["histories", "crash_points", "configurations"],
     "all frame timing sequences, publisher restarts, configuration choices and moments of observation",
     "No test runs HLS.",
     [R + "hls/ngx_rtmp_hls_module.c", R + "hls/ngx_rtmp_mpegts.c"],
     [("fragment ring and atomic playlist rename", R + "hls/ngx_rtmp_hls_module.c")],
     observe=["playlist and fragment files"])
prop("C16", "MPEG-TS output is well formed and carries every frame",
     "The transport stream produced over HTTP is a sequence of 188-byte packets whose continuity counters never skip per PID, with tables before media, and whose elementary streams decode to exactly the published access units with the published timestamps (90 kHz), in order, for every frame size.",
     ["inputs", "histories"],
     "all frame sizes around packet boundaries, timestamps, audio/video mixes and join points",
     "No test produces transport stream output.",
     [R + "mpegts/ngx_mpegts_live_module.c", R + "mpegts/ngx_mpegts_gop_module.c", R + "mpegts/ngx_mpegts_http_module.c"],
     [("packetiser", R + "mpegts/ngx_mpegts_live_module.c")],
     observe=["HTTP-TS body bytes"])
prop("C17", "Memory HLS serves a consistent live window",
     "The memory HLS playlist lists a contiguous window of finished fragments with non-decreasing media sequence, every listed fragment can be fetched while its session lives and contains exactly the transport packets of its frames, and consecutive fragments lose or repeat nothing. Idle HLS sessions expire after the configured timeout and give everything back.",
     ["histories", "schedules"],
     "all frame timings, request times and session expiries",
     "No test runs memory HLS.",
     [R + "mpegts/ngx_hls_live_module.c", R + "mpegts/ngx_hls_http_module.c"],
     [("fragment ring per session", R + "mpegts/ngx_hls_live_module.c")],
     observe=["playlist and fragment responses"])
prop("C18", "Control requests act on exactly the selected sessions",
     "A control request (drop, pause, resume) acts on exactly the joined sessions matched by its service id, application, stream, address, client id and role filters, reports their number, and leaves every other session undisturbed. A dropped session is gone from the registry and its peers see the same effects as if it had left by itself; pause stops the media of the matched publishers, resume lets it go on from the next key frame. A request without service id, or with an unknown role or a section that is not allowed, is refused and has no effect.",
     ["histories", "inputs"],
     "all registry contents and filter combinations",
     "No test issues a control request.",
     [R + "ngx_rtmp_control_module.c"],
     [("registry walk", R + "ngx_rtmp_control_module.c")],
     observe=["control response", "which connections close"])
prop("C19", "A connection is served by the server and application it names",
     "A client is served by the servers which list the address it arrived at (an exact address before the wildcard of its port, spoken with or without the proxy protocol as that address says), of those by the one whose name matches the host of its URL (exact, longest leading wildcard, longest trailing wildcard, first regular expression, else the default server), and there by the application it names, else by the application *, else it is refused. Its streams are those of that server's service id: streams of different service ids, applications or names never meet, for RTMP and HTTP-FLV alike. Per-server limits of one client never affect memory or sessions of others.",
     ["configurations", "inputs", "histories"],
     "all combinations of servers, listen addresses (IPv4, IPv6, wildcards, defaults), server names, service ids and applications, and all URLs clients use",
     "No test starts nginx with more than one server; the outcome depends on the combination of addresses and names.",
     [R + "ngx_rtmp.c", R + "ngx_rtmp_core_module.c", R + "ngx_rtmp_cmd_module.c", R + "ngx_rtmp_init.c", R + "http/ngx_http_flv_live_module.c"],
     [("listen addresses grouped per port", R + "ngx_rtmp.c"), ("lookup after accept", R + "ngx_rtmp_init.c"), ("virtual server lookup", R + "ngx_rtmp.c"), ("service id", R + "ngx_rtmp_cmd_module.c")],
     [], ["which server's settings and registry entry a session gets"])
prop("C20", "Ordered map: every operation history behaves like a sorted map",
     "The map container behaves like a mathematical ordered map for every history of insertions (with and without replacement), deletions and look-ups: find returns the last value stored, iteration visits exactly the present keys once each in key order in both directions, and size and emptiness agree, for integer and string keys including colliding hashes.",
     ["histories", "inputs"],
     "all operation sequences and key sets, including hash collisions",
     "The tests replay a few fixed histories; the claim is over all histories.",
     [T + "ngx_map.c", T + "ngx_map.h"],
     [("red-black tree keyed by hash and comparator", T + "ngx_map.c")],
     observe=["map API results"])
prop("C21", "Buffer, pool and timer pools account for every object",
     "For every history of taking and returning buffers, pools and timers: an object handed out is never handed out again before it is returned, a buffer has the requested capacity and is private to its holder, counters equal outstanding objects, and a timer fires at most once, never after it was deleted, and with the data of its latest arming.",
     ["histories", "schedules"],
     "all sequences of acquire, release, arm, re-arm, delete and time passing",
     "No test covers these pools; aliasing needs particular reuse histories.",
     [T + "ngx_rbuf.c", T + "ngx_poold.c", T + "ngx_timerd.c", T + "ngx_event_timer_module.c"],
     [("size keyed free lists", T + "ngx_rbuf.c"), ("timer slots", T + "ngx_event_timer_module.c")],
     observe=["returned objects and state counters"])
prop("C22", "Dynamic configuration switches atomically to the newest valid file",
     "The active dynamic configuration always equals one complete valid version of the file: after a change it becomes the newest valid content within the refresh interval, and an unreadable or invalid version leaves the previous one fully in force. Each worker keeps serving throughout any sequence of valid and invalid edits.",
     ["histories", "fault_sequences"],
     "all sequences of valid, invalid, missing and unchanged file versions",
     "Tests load a fixed file.",
     [T + "ngx_dynamic_conf.c"],
     [("two alternating configuration slots with checksum", T + "ngx_dynamic_conf.c")],
     observe=["directive values seen by requests"])
prop("C23", "Per-worker ports and broadcast reach exactly the intended worker",
     "Each worker answers on its own derived port or socket and on no other worker's. A request relayed to a given worker slot is served by exactly that worker with method, URI, headers and body intact, and its answer is delivered whole and once. A broadcast request (other than HEAD) is executed exactly once by every live worker, whatever the others answer and even if some have ended, and is answered once with the 200 answers of the workers in their order. A respawned worker takes over its slot's addresses, also after a kill, and every worker started by a reload has addresses of its own.",
     ["configurations", "schedules", "crash_points"],
     "worker counts, slots, request shapes and worker restarts",
     "Tests check address arithmetic only, not routing between processes.",
     [M + "ngx_event_multiport_module.c", M + "ngx_http_inner_proxy_module.c", M + "ngx_http_broadcast_module.c", M + "ngx_process_slot_module.c"],
     [("per-slot listening sockets", M + "ngx_event_multiport_module.c")],
     observe=["HTTP responses naming the serving worker"])
prop("C24", "HTTP client delivers the upstream response exactly, once",
     "The built-in HTTP client hands its caller exactly the status, headers and body the upstream sent, however they are segmented and whether length-delimited, chunked, delimited by the end of the connection or without body, completing once; an upstream which refuses, breaks off, is malformed or stalls before its header is complete ends in one error result. A connection is used for another request only after a complete response whose server keeps it open, by one request at a time; every other connection is closed, and nothing is left behind. A request which is given up or detached never calls its caller again.",
     ["inputs", "schedules", "fault_sequences"],
     "all response segmentations and failures at any byte",
     "Client tests need outside hosts and are not runnable; segmentation is scheduling dependent.",
     [C + "ngx_http_client.c", C + "ngx_client.c"],
     [("incremental response parser", C + "ngx_http_client.c")],
     observe=["what the caller reads"])
prop("C25", "HTTP-FLV players get the stream as valid FLV, like RTMP players",
     "An HTTP-FLV player receives one FLV header followed by well formed tags carrying exactly the media messages an RTMP player joined at the same moment would receive, with unchanged payload and timestamps. Its joining and leaving follow the same rules (registry, access, isolation) as an RTMP player's.",
     ["histories", "inputs"],
     "all interleavings of RTMP and HTTP-FLV players with publishing, all frame sizes and timestamps",
     "No test requests HTTP-FLV.",
     [R + "http/ngx_http_flv_live_module.c"],
     [("frame to FLV tag conversion", R + "http/ngx_http_flv_live_module.c")],
     observe=["HTTP body bytes"])
prop("C26", "DASH manifests are consistent with the segments on disk",
     "At every instant a DASH manifest names only complete segments that exist, its timelines are contiguous, and the segments contain every published frame once, in order, with its duration and payload.",
     ["histories", "configurations"],
     "all frame timing sequences and observation moments",
     "No test runs DASH.",
     [R + "dash/ngx_rtmp_dash_module.c", R + "dash/ngx_rtmp_mp4.c"],
     [("fragment ring and atomic manifest rename", R + "dash/ngx_rtmp_dash_module.c")],
     observe=["manifest and segment files"])
prop("C27", "HTTP TS ingest turns the uploaded stream into HLS/DASH faithfully",
     "An MPEG-TS stream uploaded over HTTP is demultiplexed independently of how the request body is segmented, and the HLS and DASH output contains its frames once and in order; malformed input never crashes the worker or disturbs other uploads.",
     ["inputs", "schedules"],
     "all segmentations of the body and malformed packets",
     "The module has no tests.",
     [S + "ngx_ts_stream.c", S + "ngx_ts_hls.c", S + "ngx_ts_dash.c", S + "ngx_http_ts_module.c"],
     [("packet reassembly", S + "ngx_ts_stream.c")],
     observe=["files produced"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

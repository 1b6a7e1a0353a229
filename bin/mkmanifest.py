#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties and, for the others, why not."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; behaviours of it replayed into the real nginx modules"
CLAIMS = {
    "C01": "spec/Live.tla checked exhaustively in small bounds; random behaviours of 6 configurations replayed message by message",
    "C02": "spec/Live.tla with priorities checked exhaustively in small bounds; behaviours with up to 6 sessions replayed",
    "C03": "every transition of small instances of spec/Live.tla and random behaviours replayed on an ASan build, with registry and pool accounting",
    "C04": "spec/Gop.tla checked exhaustively in small bounds for 5 configurations; behaviours with 2 publishers and 3 players (RTMP and HTTP-FLV) replayed for 5 cache configurations and 3 queue sizes, frame by frame",
    "C05": "spec/Chunk.tla checked exhaustively in small bounds (with and without publish_time_fix); random behaviours of it encoded byte by byte and replayed with random segmentation; mutated byte streams on an ASan build",
    "C06": "spec/Mux.tla checked exhaustively in small bounds; behaviours replayed with 3 players of different chunk sizes and output settings reading slowly through small socket buffers, bytes decoded strictly",
    "C11": "spec/Relay.tla (attempts, backup urls, pauses, losses, rejections, urls down and up) model-checked without bound on steps, with liveness; its behaviours replayed against scripted RTMP and HTTP-FLV upstreams, with frames checked on both sides, also with ASan",
    "C07": "spec/Slow.tla and spec/SlowGop.tla (with spec/OutQ.tla, the bounded queue) checked in small bounds: whole frames in order, importance, isolation, decodable with a GOP cache; behaviours with RTMP and HTTP-FLV players that stop, read some and read on replayed over sockets of known capacity, every message and the frames in use compared, also with ASan",
    "C08": "spec/Alive.tla: ping, idle-publisher and handshake timers checked exhaustively in small bounds; behaviours of five kinds of clients replayed in real time, the time of every ping request, answer and disconnection compared (runs void when the machine lags), also with ASan",
    "C09": "spec/Mesh.tla (owner, pushes, pulls, half-closed links, deaths) checked in small bounds: settles with everybody fed once and nothing held; its behaviours replayed on a cluster of 3 workers with RTMP and HTTP-FLV players, worker kills and re-publishing, also with ASan",
    "C10": "spec/Zone.tla and the locking protocol spec/ZoneImpl.tla (refinement, conservation, deadlock freedom, termination) checked exhaustively in small bounds; behaviours replayed for any process slot on tables with few buckets, also with ASan; scripts run concurrently in 4 real workers, their recorded histories checked for linearizability against spec/ZoneTrace.tla",
    "C12": "spec/Notify.tla checked exhaustively in small bounds for 7 configurations; behaviours with RTMP and HTTP-FLV sessions and a scripted callback server (any status, broken, late and missing answers) replayed: every callback, every frame and the registry compared, also with ASan",
    "C13": "spec/Access.tla: decision and implementation compared for every rule list of the bounds; behaviours with random rules and addresses (IPv4, IPv6, mapped, local, behind a proxy) replayed with RTMP, HTTP-FLV, HTTP-TS and HLS clients, also with ASan",
    "C14": "spec/Record.tla checked exhaustively in small bounds for 16 recorder configurations; behaviours with several publishers, recorders, limits, control requests and permission callbacks replayed, every file compared byte for byte after every step, also with ASan",
    "C18": "spec/Control.tla checked exhaustively in small bounds; behaviours with servers, service ids, applications, RTMP and HTTP-FLV sessions and all filters replayed, answers and effects on every session compared, also with ASan",
    "C19": "spec/Route.tla: address lookup and implementation compared for every configuration of the bounds; random configurations of servers, addresses and names replayed with RTMP and HTTP-FLV clients, also with ASan",
    "C20": "every transition of a small instance of spec/Map.tla and long random behaviours replayed on ngx_map inside a worker, for 4 key types with extreme keys and colliding hashes, also with ASan",
    "C21": "spec/Pools.tla and spec/Timers.tla checked exhaustively in small bounds; long random behaviours replayed on ngx_rbuf, ngx_poold, ngx_timerd and ngx_event_timer inside a worker, also with ASan",
    "C22": "spec/DynConf.tla: looks at a file which is edited in between, checked in small bounds (also that the newest version comes into force); behaviours with valid and 15 kinds of invalid versions, edits during a look, missing file and worker deaths replayed on two workers, every value compared before, during and after each edit, also with ASan",
    "C23": "spec/Cluster.tla: slots, addresses and the shared slot table through kills, exits, respawns and reloads checked exhaustively in small bounds; behaviours replayed on 3 and 12 real workers with random requests (any bytes, bodies, headers) directly, relayed and broadcast, one by one and at once, each worker's count of executions compared after every step, also with ASan",
    "C24": "spec/HttpRead.tla: what the caller gets compared with the incremental reader for all responses and arrivals of the bounds; spec/HttpClient.tla (connections, pool, errors, abort, detach) checked in small bounds and its behaviours replayed on the client inside a worker against scripted servers, byte by byte, with pool accounting, also with ASan",
    "C25": "spec/Live.tla with HTTP-FLV sessions; behaviours replayed, FLV bytes parsed strictly",
}
NOT = {}
PENDING = "check not built yet"
checks = []
for p in props:
    if p in CLAIMS:
        checks.append(dict(property=p, quick_cmd=f"python3 checks/run.py {p}", thorough_cmd=f"python3 checks/run.py {p} thorough",
                           technique=TECH, level="model_checking", level_note=CLAIMS[p]))
m = dict(version=1, setup_cmd="bash bin/build.sh plain && bash bin/build.sh asan", checks=checks,
         not_applicable=[dict(property=p, reason=NOT.get(p, PENDING)) for p in props if p not in CLAIMS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

"""Replays behaviours of spec/Gop.tla: publishers, RTMP and HTTP-FLV players
of a stream with a GOP cache; every player must receive exactly what the
specification says, after every frame."""
import hashlib
import json
import random

import live
import nginxd
import rtmp
import tla
from check import Mismatch
from rtmp import AUDIO, VIDEO, META, Conn, Closed, Timeout

QS = [12, 16, 2048]
# name: (constants, directives)
PROFILES = {
    "all": (dict(SendAll=True, CT=1000), "cache_time 1s; send_all on;"),
    "pace": (dict(CT=500), "cache_time 500ms;"),
    "ll": (dict(LowLat=True, CT=500), "cache_time 500ms; low_latency on;"),
    "raw": (dict(SendAll=True, CT=300, Fix=0), "cache_time 300ms; send_all on; fix_timestamp 0;"),
    "zero": (dict(SendAll=True, CT=1000, ZeroStart=True, Fix=5000), "cache_time 1s; send_all on; zero_start on; fix_timestamp 5s;"),
}
BASE = dict(Pubs={1}, Players={3}, Q=5, CT=100, SendAll=False, LowLat=False, Fix=10000, ZeroStart=False,
            Kinds='{"a","k","i"}', Steps={40}, MaxFrames=5, T0=0, Mix=(), FlvP=set(), Gen=False)
INVARIANTS = ["Ordered", "Decodable", "Headers", "UpToDate", "NoGap", "Bounded"]


def consts(profile, **kw):
    return dict(BASE, **dict(PROFILES[profile][0], **kw))


def conf():
    apps = "".join(f"    application {p} {{ live on; {d} }}\n" for p, (_, d) in PROFILES.items())
    srv = http = ""
    for i, q in enumerate(QS):
        srv += f"  server {{ listen {{p{i}}}; serverid q{q}; out_queue {q}; chunk_size {[4096, 128, 1000][i]};\n{apps}  }}\n"
        http += f"  server {{ listen {{p{i + 3}}}; location /sys {{ sys_stat; }} location /pv {{ pv_state; }} location / {{ flv_live {{p{i}}}; }} }}\n"
    return "worker_processes 1;\nevents { worker_connections 256; }\nrtmp {\n" + srv + "}\nhttp {\n access_log off;\n" + http + "}\n"


class GopRunner(live.LiveRunner):
    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=6, harness=True, level=self.level)
        self.count = 0
        self.base = self.state()

    def run(self, b):
        log = b["log"]
        self.prof = b["profile"]
        self.qi = QS.index(b["Q"])
        seed = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        self.rnd = random.Random(seed)
        self.tag = self.name = seed[:8]
        self.flv = set(b["flv"])
        self.codec = self.rnd.choice(["avc", "hevc"])
        self.conns, self.flvc, self.frames = {}, {}, {}
        self.pend = {}
        self.where = ""
        try:
            for i, e in enumerate(log):
                self.where = f"step {i + 1} {e['a']} {e['s']} {e['k']}"
                s = e["s"]
                if e["a"] == "frame":
                    self.gframe(s, e["k"], e["f"], e["t"])
                else:
                    getattr(self, "g_" + e["a"])(s)
                for q, toks in e["out"].items():
                    self.pend.setdefault(int(q), []).extend(toks)
                # frames which follow at once reach the server in one segment,
                # as far as no queue can run short
                nx = log[i + 1] if i + 1 < len(log) else None
                if nx and e["a"] == "frame" and nx["a"] == "frame" and nx["s"] == s and b["Q"] > 1000 and self.prof != "ll" \
                        and self.rnd.random() < .5:
                    continue
                self.check(s)
            self.final(log)
        finally:
            for c in list(self.conns.values()) + list(self.flvc.values()):
                c.close()
            self.conns, self.flvc = {}, {}
        return len(log)

    def conn(self, s):
        c = Conn(("127.0.0.1", self.ng.ports[self.qi]), timeout=8)
        r = c.connect(self.prof)
        if r[0] != "_result":
            raise Mismatch(f"{self.where}: connect answered {r}")
        c.set_chunk(self.rnd.choice([128, 4096, 60000]))
        c.create_stream()
        self.conns[s] = c
        return c

    def g_publish(self, s):
        self.conn(s).publish(f"{self.name}?pubpri={s}")

    def g_unpublish(self, s):
        c = self.conns.pop(s)
        if self.rnd.random() < .5:
            c.delete_stream()
            c.sync()
        c.close()
        self.settle()

    def g_play(self, q):
        if q in self.flv:
            self.flvc[q] = live.FlvClient(self.ng.ports[3 + self.qi], f"/{self.prof}/{self.name}")
            self.settle()
        else:
            self.conn(q).play(self.name)

    def g_leave(self, q):
        self.check(None)
        c = self.conns.pop(q, None) or self.flvc.pop(q)
        c.close()
        self.settle()

    def settle(self):
        """The registry shows exactly the connected sessions."""
        import time
        end = time.time() + 6
        want = len(self.conns) + len(self.flvc)
        while True:
            r = self.registry()
            got = sum(len(p) + len(q) for n, (p, q) in r.items() if n.endswith("/" + self.name))
            if got == want:
                return
            if time.time() > end:
                raise Mismatch(f"{self.where}: {got} registered sessions instead of {want}")
            time.sleep(.004)

    def g_pause(self, q):
        c = self.conns[q]
        c.cmd("pause", None, True, 0, sid=c.sid)

    def g_unpause(self, q):
        c = self.conns[q]
        c.cmd("pause", None, False, 0, sid=c.sid)

    def gframe(self, s, k, f, ts):
        c = self.conns[s]
        if k == "m":
            p = rtmp.amf("@setDataFrame", "onMetaData", {"width": float(f), "height": 7.0})
            c.send(META, p, ts=ts)
        else:
            p = self.payload("hh" if k == "vh" and self.codec == "hevc" else k, f)
            c.send(AUDIO if k in ("a", "ah") else VIDEO, p, ts=ts)
        self.frames[f] = (k, ts, p)

    def want(self, t):
        if t["k"] == "m":
            return f"m{t['f']}@0"
        return (AUDIO if t["k"] in ("a", "ah") else VIDEO, t["ts"], self.frames[t["f"]][2])

    def tok(self, m, s):
        x = super().tok(m, s)
        return x if isinstance(x, tuple) or (x and x[0] == "m") else None

    def check(self, actor):
        if actor in self.conns:
            self.sync(actor)
        for q in sorted(self.conns):
            self.sync(q)
            c = self.conns[q]
            got, c.pre = c.pre, []
            self.compare(q, got, self.pend.pop(q, []))
        for q in sorted(self.flvc):
            import time
            c = self.flvc[q]
            exp = self.pend.pop(q, [])
            end = time.time() + 6
            while len(c.inbox) < len(exp) and not c.closed and time.time() < end:
                c.read_some(end - time.time())
            c.drain()
            if c.closed:
                raise Mismatch(f"{self.where}: HTTP-FLV player {q} was closed (status {c.status})")
            self.compare(q, c.take(), exp)


class AsanGopRunner(GopRunner):
    flavor = "asan"


def behaviours(profile, q, num, depth, seed, procs=2, **kw):
    flv = kw.pop("flv", [])
    players = [4, 5, 6]
    kw["Mix"] = tuple('"%s"' % k for k in kw.pop("mix", "a i i i i a k ah vh m").split())
    c = consts(profile, Q=q, Gen=True, **dict(dict(Pubs={1, 2}, Players=set(players), MaxFrames=100000,
                                                   FlvP=set(flv), Steps={0, 20, 40, 90, 200}), **kw))
    return [{"profile": profile, "Q": q, "flv": flv, "players": players, "log": l}
            for l in tla.simulate("Gop", c, num, depth, seed, next="GenNext", procs=procs)]

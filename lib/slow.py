"""Replays behaviours of spec/Slow.tla: players which stop reading and read
on, over unix sockets, whose buffers have a fixed size.  Every frame is larger
than such a buffer, so a player which does not read blocks at a known place."""
import hashlib
import json
import random
import socket
import time

import gop
import live
import nginxd
import rtmp
import tla
from check import Mismatch
from rtmp import AUDIO, VIDEO, META, Conn

QS = {7: 3, 12: 5, 64: 9}        # out_queue: out_cork
# name: (constants, directives)
PROFILES = {
    "one": (dict(M=1, Sync=300), "merge_frame 1;"),
    "few": (dict(M=3, Sync=100), "merge_frame 3; sync 100ms;"),
    "many": (dict(M=32, Sync=0, WaitKey=False), "sync off; wait_key off;"),
    "buf": (dict(M=4, Sync=60, Buf=True), "merge_frame 4; sync 60ms; buffer 1s;"),
}
# with a GOP cache
GPROFILES = {
    "g_all": ("all", 1), "g_few": ("all", 3), "g_pace": ("pace", 2), "g_ll": ("ll", 1), "g_llm": ("ll", 4), "g_raw": ("raw", 32),
    "g_zero": ("zero", 2),
}
PROFILES.update({n: (dict(M=m), f"{gop.PROFILES[p][1]} merge_frame {m};") for n, (p, m) in GPROFILES.items()})
GINVARIANTS = ["Subsequence", "BoundedS", "DecodableS", "HeadersS", "IsolatedS"]
BASE = dict(Players={1}, FlvP="{}", Q=4, M=1, Buf=False, Cork=2, Sync=50, WaitKey=True, Kinds='{"a","k","i"}',
            Steps={40}, MaxFrames=6, MaxPubs=1, Mix=(), Gen=False)
INVARIANTS = ["Subsequence", "Bounded", "Importance", "Isolated", "Headers"]


def capacity():
    """Bytes a unix stream socket takes from a writer whose reader sleeps."""
    a, b = socket.socketpair()
    a.setblocking(False)
    n = 0
    try:
        while True:
            n += a.send(bytes(1 << 20))
    except BlockingIOError:
        pass
    a.close()
    b.close()
    return n


def conf():
    apps = "".join(f"    application {p} {{ live on; {d} }}\n" for p, (_, d) in PROFILES.items())
    srv = http = ml = ""
    for i, (q, cork) in enumerate(QS.items()):
        ml += f" multi_listen unix:{{dir}}/w{i} {{p{i}}};"
        srv += f"  server {{ listen {{p{i}}}; serverid q{q}; out_queue {q}; out_cork {cork}; chunk_size {[65536, 20000, 65536][i]};\n{apps}  }}\n"
        http += f"  server {{ listen {{p{i + 3}}}; listen unix:{{dir}}/h{i}; location /sys {{ sys_stat; }} location /pv {{ pv_state; }} location / {{ flv_live {{p{i}}}; }} }}\n"
    return "worker_processes 1;\nevents { worker_connections 256;" + ml + " }\nrtmp {\n" + srv + "}\nhttp {\n access_log off;\n" + http + "}\n"


class SlowRunner(live.LiveRunner):
    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=6, harness=True, level=self.level)
        self.count = 0
        self.base = self.state()
        self.cap = capacity()

    def run(self, b):
        log = [dict(e, **{k: {str(i): v for i, v in enumerate(e[k], 1)} if isinstance(e[k], list) else e[k] for k in ("out", "held")})
               for e in b["log"]]
        self.prof = b["profile"]
        self.qi = list(QS).index(b["Q"])
        self.M = PROFILES[self.prof][0]["M"]
        seed = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        self.rnd = random.Random(seed)
        self.tag = self.name = seed[:8]
        self.flv = set(b["flv"])
        self.codec = "hevc" if any(e["k"] == "hh" for e in log) else "avc"
        self.conns, self.flvc, self.frames, self.pend = {}, {}, {}, {}
        self.pub = None
        self.stalled = set()
        start = self.rnd.choice([0, 0, 5000, 0xFFFFFF - 300, 0x7FFFFF00])
        self.t0 = 0 if self.prof in GPROFILES else start
        try:
            for i, e in enumerate(log):
                self.where = f"step {i + 1} {e['a']} {e['s']} {e['k']}"
                getattr(self, "s_" + e["a"])(e)
                self.observe(e)
                if e["a"] == "frame" and self.rnd.random() < .15 or e["a"] == "leave" and self.rnd.random() < .5:
                    self.memory(e)
        finally:
            for c in list(self.conns.values()) + list(self.flvc.values()) + [self.pub]:
                if c:
                    c.close()
            self.conns, self.flvc = {}, {}
            self.pub = None
        self.given_back()
        return len(log)

    # ------------------------------------------------------------ the steps
    def s_publish(self, e):
        c = Conn(("127.0.0.1", self.ng.ports[self.qi]), timeout=8)
        r = c.connect(self.prof)
        if r[0] != "_result":
            raise Mismatch(f"{self.where}: connect answered {r}")
        c.set_chunk(self.rnd.choice([60000, 1 << 20, 9000]))
        c.create_stream()
        c.publish(self.name)
        self.pub = c
        self.barrier()

    def barrier(self):
        if self.pub:
            try:
                self.pub.sync()
            except (rtmp.Closed, rtmp.Timeout) as x:
                raise Mismatch(f"{self.where}: the publisher got no answer ({type(x).__name__})")

    def s_unpublish(self, e):
        c, self.pub = self.pub, None
        if self.rnd.random() < .5:
            c.delete_stream()
            c.sync()
        c.close()
        self.settle(e)

    def s_play(self, e):
        q = e["s"]
        if q in self.flv:
            self.flvc[q] = live.FlvClient(f"{self.ng.dir}/h{self.qi}", f"/{self.prof}/{self.name}")
            self.settle(e)
            return
        c = Conn(f"{self.ng.dir}/w{self.qi}.0", timeout=8)
        r = c.connect(self.prof)
        if r[0] != "_result":
            raise Mismatch(f"{self.where}: connect answered {r}")
        c.create_stream()
        c.play(self.name)
        self.conns[q] = c
        pre = c.sync()
        c.inbox = pre + c.inbox

    def s_leave(self, e):
        q = e["s"]
        self.stalled.discard(q)
        (self.conns.pop(q, None) or self.flvc.pop(q)).close()
        self.settle(e)

    def s_stall(self, e):
        self.stalled.add(e["s"])

    def s_read(self, e):
        pass

    def s_resume(self, e):
        self.stalled.discard(e["s"])

    def s_frame(self, e):
        k, f = e["k"], e["f"]
        ts = (self.t0 + e["t"]) & 0xFFFFFFFF
        if k == "m":
            p = rtmp.amf("@setDataFrame", "onMetaData", {"width": float(f), "height": 7.0})
            self.pub.send(META, p, ts=ts)
        else:
            p = self.payload("hh" if k == "vh" and self.codec == "hevc" else k, f)
            n = self.cap + 65536 + self.rnd.choice([0, 1, 777, 30000])
            x = bytes(self.rnd.getrandbits(8) for _ in range(61))
            p = (p + x * (n // 61 + 1))[:n]
            self.pub.send(AUDIO if k in ("a", "ah") else VIDEO, p, ts=ts)
        self.frames[f] = p
        self.barrier()

    # ----------------------------------------------------------- observation
    def tok(self, m, s):
        x = super().tok(m, s)
        return x if isinstance(x, tuple) or (x and (x[0] == "m" or x in ("Begin", "Eof"))) else None

    def want(self, t):
        if t["k"] == "m":
            return f"m{t['f']}@0"
        if t["k"] in ("Begin", "Eof"):
            return t["k"]
        return (AUDIO if t["k"] in ("a", "ah") else VIDEO, (self.t0 + t["ts"]) & 0xFFFFFFFF, self.frames[t["f"]])

    def observe(self, e):
        dead = set(e["dead"])
        for q, toks in e["out"].items():
            q = int(q)
            c = self.conns.get(q) or self.flvc.get(q)
            if c is None:
                continue
            exp = [t for t in toks if q not in self.flv or t["k"] in live.MEDIA]
            if q in dead:
                if not c.wait_closed(6):
                    raise Mismatch(f"{self.where}: player {q}, which lost a message it cannot do without, must be closed")
                self.check(q, c.take(), True, exp)
                self.conns.pop(q, None)
                self.flvc.pop(q, None)
                self.stalled.discard(q)
                c.close()
                continue
            if q in self.stalled and e["a"] != "read":
                if toks:
                    raise AssertionError("a stalled player reads nothing")
                continue
            most = 8192 if q in self.stalled else 262144
            end = time.time() + 8
            while sum(1 for m in c.inbox if self.tok(m, q) is not None) < len(exp) and not c.closed and time.time() < end:
                c.read_some(end - time.time(), most)
            if q not in self.stalled and not e["held"][str(q)] and q not in self.flv and self.prof != "buf" and self.rnd.random() < .3:
                try:
                    c.inbox = c.sync() + c.inbox
                except rtmp.Timeout:
                    raise Mismatch(f"{self.where}: no answer to player {q}")
                except rtmp.Closed:
                    pass
            elif q not in self.stalled:
                while c.read_some(0):
                    pass
            if c.closed:
                raise Mismatch(f"{self.where}: player {q} was closed")
            self.check(q, c.take(), False, exp)
        if e["a"] == "read":
            self.barrier()

    def check(self, q, got, closing, full):
        g = [x for x in (self.tok(m, q) for m in got) if x is not None]
        w = [self.want(t) for t in full]
        if closing:
            w = w[:len(g)]
        if g != w:
            i = next((i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]), 0)
            raise Mismatch(f"{self.where} ({self.prof}): player {q} must receive [{', '.join(map(self.show, w[:i + 3]))}] ({len(w)})"
                           f" but received [{', '.join(map(self.show, g[:i + 3]))}] ({len(g)}), first difference at {i}")

    def settle(self, e):
        end = time.time() + 6
        want = len(self.conns) + len(self.flvc) + bool(self.pub) - len(e["dead"])
        while True:
            got = sum(len(p) + len(q) for n, (p, q) in self.registry().items() if n.endswith("/" + self.name))
            if got == want:
                return
            if time.time() > end:
                raise Mismatch(f"{self.where}: {got} registered sessions instead of {want}")
            time.sleep(.004)

    def memory(self, e):
        """What the players still have to get is all that is held."""
        self.barrier()
        n = self.state()["frames"] - self.base["frames"]
        most = 8 + sum(int(v) for v in e["held"].values()) + (self.M + 3) * len(self.stalled) \
            + (list(QS)[self.qi] if self.prof in GPROFILES else 0)
        if n > most:
            raise Mismatch(f"{self.where}: {n} frames in use, at most {most} can be needed ({e['held']}, stalled {sorted(self.stalled)})")

    def given_back(self):
        end = time.time() + 6
        while True:
            s = self.state()
            if s == self.base:
                return
            if time.time() > end:
                raise Mismatch("after everybody left, not given back: " + ", ".join(f"{k} {s[k]} instead of {self.base[k]}"
                                                                                    for k in s if s[k] != self.base[k]))
            time.sleep(.01)


class AsanSlowRunner(SlowRunner):
    flavor = "asan"


def behaviours(profile, q, num, depth, seed, players=(1, 2, 3), flv=(3,), mix="a i i i k ah vh m", procs=1, **kw):
    c = dict(BASE, **PROFILES[profile][0])
    c.update(Q=q, Cork=QS[q], Gen=True, Players=set(players), FlvP=set(flv) if flv else "{}", MaxFrames=100000, MaxPubs=1000,
             Steps={0, 20, 40, 90, 200}, Mix=tuple('"%s"' % k for k in mix.split()))
    c.update(kw)
    ls = {str(l[:-1]): l for l in tla.simulate("Slow", c, num, depth, seed, next="GenNext", procs=procs)}
    return [{"profile": profile, "Q": q, "flv": list(flv), "log": l} for l in ls.values()]


def gconsts(profile, **kw):
    p, m = GPROFILES[profile]
    return dict(gop.consts(p), **dict(dict(M=m, MaxPubs=1, FlvP="{}"), **kw))


def gbehaviours(profile, q, num, depth, seed, players=(1, 2, 3), flv=(3,), mix="a i i i k ah vh m", procs=1, **kw):
    c = gconsts(profile, Q=q, Gen=True, Players=set(players), FlvP=set(flv), MaxFrames=100000, MaxPubs=1000,
                Steps={0, 20, 40, 90, 200}, Mix=tuple('"%s"' % k for k in mix.split()))
    c.update(kw)
    ls = {str(l[:-1]): l for l in tla.simulate("SlowGop", c, num, depth, seed, init="InitS", next="GenNextS", procs=procs)}
    return [{"profile": profile, "Q": q, "flv": list(flv), "log": l} for l in ls.values()]

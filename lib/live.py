"""Replays behaviours of spec/Live.tla into nginx: RTMP and HTTP-FLV clients
do what the behaviour says, and everything each of them observes is compared
with what the specification says it must observe."""
import hashlib
import json
import random
import socket
import struct
import time

import nginxd
import rtmp
from check import Mismatch
from rtmp import AUDIO, VIDEO, META, CMD, Conn, Closed, Timeout, ProtocolError

# name: (constants, directives)
PROFILES = {
    "default": (dict(), ""),
    "noidle": (dict(IdleStreams=False, PubNotify=True), "idle_streams off; publish_notify on;"),
    "restart": (dict(PlayRestart=True, PubNotify=True, WaitKey=False), "play_restart on; publish_notify on; wait_key off;"),
    "waitv": (dict(WaitVideo=True), "wait_video on;"),
    "inter": (dict(Interleave=True), "interleave on;"),
    "interv": (dict(Interleave=True, WaitVideo=True, WaitKey=False, IdleStreams=False, PlayRestart=True),
               "interleave on; wait_video on; wait_key off; idle_streams off; play_restart on;"),
}
BASE = dict(Sess="1..3", FlvSess="{}", Names="{1}", Pris="{0}", Kinds='{"k"}', IdleStreams=True, PubNotify=False,
            PlayRestart=False, WaitKey=True, WaitVideo=False, Interleave=False, MaxFrames=3, Gen=False)
INVARIANTS = ["Exact", "OwnTs", "UniquePri", "OneTop", "CleanName", "Rooted", "ActiveStream", "OneStarter"]


def consts(profile="default", **kw):
    return dict(BASE, **PROFILES[profile][0], **kw)


def conf(extra_app="", extra_srv=""):
    apps = ""
    for p, (_, d) in PROFILES.items():
        for v in ("", "x"):
            apps += f"    application {p}{v} {{ live on; {d} {extra_app} }}\n"
    # three servers: the first and the last hold the same streams (same
    # service id) but cut their chunks differently
    srv = ""
    for i, (sid, cs, opt) in enumerate([("s0", 4096, ""), ("s1", 128, "out_cork 1024;"), ("s0", 517, "merge_frame 4;")]):
        srv += f"  server {{ listen {{p{i}}}; serverid {sid}; chunk_size {cs}; {opt} {extra_srv}\n{apps}  }}\n"
    http = ""
    for i in range(3):
        http += f"  server {{ listen {{p{i + 3}}}; location /sys {{ sys_stat; }} location /pv {{ pv_state; }} location / {{ flv_live {{p{i}}}; }} }}\n"
    return ("worker_processes 1;\nstream_buckets 2;\nserver_buckets 1;\nevents { worker_connections 512; }\nrtmp {\n" + srv + "}\nhttp {\n access_log off;\n" + http + "}\n")


KMAP = {"PubStart": "NetStream.Publish.Start", "BadName": "NetStream.Publish.BadName", "PlayStart": "NetStream.Play.Start",
        "NotFound": "NetStream.Play.StreamNotFound", "Unpublished": "NetStream.Unpublish.Success", "PlayStop": "NetStream.Play.Stop",
        "Paused": "NetStream.Pause.Notify", "Unpaused": "NetStream.Unpause.Notify", "PublishNotify": "NetStream.Play.PublishNotify",
        "UnpublishNotify": "NetStream.Play.UnpublishNotify"}
CODE2TOK = {v: k for k, v in KMAP.items()}
MEDIA = ("m", "a", "ah", "k", "i", "vh", "hh", "d")


class FlvClient:
    """An HTTP-FLV player."""

    def __init__(self, port, path, host="h", headers="", rcvbuf=None):
        self.sock = socket.socket(socket.AF_UNIX if isinstance(port, str) else socket.AF_INET)
        if rcvbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.sock.connect(port if isinstance(port, str) else ("127.0.0.1", port))
        self.sock.sendall(f"GET {path} HTTP/1.1\r\nHost: {host}\r\n{headers}\r\n".encode("latin1"))
        self.raw = b""          # not yet dechunked
        self.body = b""         # not yet parsed
        self.status = None
        self.started = False
        self.inbox = []
        self.closed = False
        self.chunked = False
        self.left = 0
        self.tail = False

    def read_some(self, timeout, most=262144):
        import select
        if self.closed:
            return False
        if not select.select([self.sock], [], [], timeout)[0]:
            return False
        try:
            x = self.sock.recv(most)
        except OSError:
            x = b""
        if not x:
            self.closed = True
            return False
        self.raw += x
        self._parse()
        return True

    def _parse(self):
        if self.status is None:
            if b"\r\n\r\n" not in self.raw:
                return
            head, self.raw = self.raw.split(b"\r\n\r\n", 1)
            self.status = int(head.split()[1])
            self.head = head
            self.chunked = b"transfer-encoding: chunked" in head.lower()
        if self.status != 200:      # refused: an HTTP error page, the connection may be kept
            self.raw = b""
            self.closed = True
            return
        if self.chunked:
            while self.raw:
                if self.left:       # inside a chunk
                    self.body += self.raw[:self.left]
                    self.left, self.raw = max(0, self.left - len(self.raw)), self.raw[self.left:]
                    self.tail = True
                    continue
                if self.tail:
                    if len(self.raw) < 2:
                        break
                    if self.raw[:2] != b"\r\n":
                        raise ProtocolError("bad chunked encoding")
                    self.raw = self.raw[2:]
                    self.tail = False
                    continue
                l, sep, rest = self.raw.partition(b"\r\n")
                if not sep:
                    break
                self.left = int(l, 16)
                self.raw = rest
                if not self.left:   # end of the body, the connection may be kept
                    self.closed = True
                    break
        else:
            self.body += self.raw
            self.raw = b""
        if not self.started:
            if len(self.body) < 13:
                return
            if self.body[:4] != b"FLV\x01" or self.body[4] not in (1, 4, 5) or self.body[5:13] != b"\0\0\0\x09\0\0\0\0":
                raise ProtocolError("bad FLV header " + self.body[:13].hex())
            self.body = self.body[13:]
            self.started = True
        while len(self.body) >= 11:
            n = int.from_bytes(self.body[1:4], "big")
            if len(self.body) < n + 15:
                break
            t = self.body[0]
            ts = int.from_bytes(self.body[4:7], "big") | self.body[7] << 24
            if self.body[8:11] != b"\0\0\0":
                raise ProtocolError("FLV stream id is not 0")
            if int.from_bytes(self.body[n + 11:n + 15], "big") != n + 11:
                raise ProtocolError("bad FLV previous tag size")
            self.inbox.append(rtmp.Msg(t, ts, 0, 0, self.body[11:11 + n]))
            self.body = self.body[n + 15:]

    def drain(self):
        while self.read_some(0):
            pass

    def take(self):
        r, self.inbox = self.inbox, []
        return r

    def wait_closed(self, timeout):
        end = time.time() + timeout
        while not self.closed and time.time() < end:
            self.read_some(end - time.time())
        return self.closed

    def close(self):
        self.sock.close()
        self.closed = True


class LiveRunner:
    flavor = "plain"
    leaks = True
    extra_app = ""
    level = "error"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(self.extra_app), flavor=self.flavor, nports=6, harness=True, level=self.level)
        self.count = 0
        self.base = self.state()

    def close(self):
        self.ng.stop()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return f"the worker was replaced: {self.ng.worker0} -> {self.ng.workers()}"
        return None

    # -------------------------------------------------------- registry
    def state(self):
        t = nginxd.http_get(self.ng.ports[3], "/pv")[2].decode()
        v = {}
        for l in t.splitlines():
            if ": " in l:
                k, n = l.rsplit(": ", 1)
                v[k] = int(n)
        return {"streams": v["ngx_live nalloc stream"] - v["ngx_live nfree stream"],
                "frames": v["ngx_rtmp_shared alloc frame"] - v["ngx_rtmp_shared free frame"],
                "bufs": v["ngx_rbuf nalloc buf"] - v["ngx_rbuf nfree buf"],
                "chains": v["ngx_rbuf nalloc chain"] - v["ngx_rbuf nfree chain"],
                "pools": v["ngx_poold nalloc node"] - v["ngx_poold nfree node"],
                "timers": v["ngx_timerd nalloc node"] - v["ngx_timerd nfree node"],
                "zone": v["ngx_stream_zone alloc"]}

    def registry(self):
        """{stream full name: (set of publishers, set of players)} by flashver, and the raw JSON."""
        st, _, body = nginxd.http_get(self.ng.ports[3], "/sys")
        if st != 200:
            raise Mismatch(f"sys_stat answered {st}")
        j = json.loads(body.decode("latin1"))
        r = {}
        for srv in j["live_stream"]["server_array"]:
            for s in srv.get("stream_array", []):
                pubs, subs = [], []
                for c in s.get("client_array", []):
                    (pubs if c["publishing"] else subs).append((c.get("flashver", ""), c["protocol"]))
                r[s["name"]] = (sorted(pubs), sorted(subs))
        return r

    # ------------------------------------------------------- behaviour
    def run(self, b):
        self.count += 1
        log = b["log"]
        self.prof = b["profile"]
        seed = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        self.rnd = rnd = random.Random(seed)
        self.tag = "%s" % seed[:8]
        nn = len(log[0]["reg"])
        self.flv = set(b.get("flv", []))
        # where the names live: (server indexes, app, name)
        mode = rnd.randrange(4)
        self.names = {}
        for n in range(1, nn + 1):
            if mode == 0:       # same application, one a prefix of the other
                self.names[n] = ((0, 2), self.prof, self.tag + "n" * n)
            elif mode == 1:     # same name in two applications
                self.names[n] = ((0, 2), self.prof + ("" if n == 1 else "x"), self.tag)
            elif mode == 2:     # same application and name, another service id
                self.names[n] = (((0, 2), (1,))[(n - 1) % 2], self.prof, self.tag + ("" if n < 3 else str(n)))
            else:
                self.names[n] = ((1,), self.prof + ("x" if n % 2 else ""), f"{self.tag}-{n}")
        pm = rnd.choice([[0, 1, 2], [0, 9, 10], [0, 2, 100], [0, 5, 70000]])
        self.pri = pm
        self.codec = "hevc" if any(e["k"] == "hh" for e in log) else \
            ("plain" if not any(e["k"] in ("ah", "vh") for e in log) and rnd.random() < .5 else "avc")
        self.conns = {}
        self.flvc = {}
        self.pend = {}                # slot -> list of expected tokens not yet compared
        self.frames = {}              # id -> (kind, ts, payload)
        self.tsbase = {}
        self.ver = {}
        self.dead = set()
        try:
            self.steps(log)
            self.final(log)
        finally:
            for c in list(self.conns.values()) + list(self.flvc.values()):
                c.close()
            self.conns, self.flvc = {}, {}
        return len(log)

    def app_of(self, s, i, log):
        for e in log[i + 1:]:
            if e["s"] == s and e["k"] != "again":
                if e["a"] in ("publish", "play"):
                    return self.names[e["n"]]
                if e["a"] == "drop":
                    break
        return self.names[self.rnd.choice(sorted(self.names))]

    def steps(self, log):
        rnd = self.rnd
        last = None
        for i, e in enumerate(log):
            a, s = e["a"], e["s"]
            self.where = f"step {i + 1} {a} {s}"
            if a == "frame":
                if last is not None and last != s:
                    self.sync(last)
                self.frame(s, e["k"], e["f"])
                last = s
            else:
                if last is not None:
                    self.sync(last)
                    last = None
                if self.pend and rnd.random() < .7:
                    self.flush()
                getattr(self, "do_" + a)(e, i, log)
            for q, toks in enumerate(e["out"], 1):
                if toks:
                    self.pend.setdefault(q, []).extend(toks)
            if a == "frame":
                nx = log[i + 1]["a"] if i + 1 < len(log) else None
                if nx != "frame" or rnd.random() < .2:
                    self.flush(actor=s)
                    last = None
            else:
                self.flush(actor=s, reg=e["reg"] if a != "connect" else None)
        self.flush()

    # ------------------------------------------------------- client side
    def do_connect(self, e, i, log):
        s = e["s"]
        srvs, app, _ = self.app_of(s, i, log)
        k = self.rnd.choice(srvs)
        self.ver[s] = f"pv-{self.tag}-{s}-{i}"
        c = Conn(("127.0.0.1", self.ng.ports[k]), timeout=8)
        r = c.connect(app, flashVer=self.ver[s])
        if r[0] != "_result":
            raise Mismatch(f"{self.where}: connect answered {r}")
        if self.rnd.random() < .5:
            c.set_chunk(self.rnd.choice([128, 200, 4096, 60000]))
        c.create_stream()
        c.srv = k
        self.conns[s] = c
        self.tsbase[s] = self.rnd.choice([0, 0, 1000, 0xFFFFFF - 60, 0x7fffff00, 0xf0000000])
        self.lastts = getattr(self, "lastts", {})
        self.lastts[s] = self.tsbase[s]

    def do_publish(self, e, i, log):
        c = self.conns[e["s"]]
        name = self.names[e["n"]][2]
        if e["k"] != "again":
            p = self.pri[e["p"]]
            if p:
                name += self.rnd.choice([f"?pubpri={p}", f"?x=1&pubpri={p}", f"?pubpri={p}&y=2"])
            else:
                name += self.rnd.choice(["", "", "?pubpri=0", "?pubpri=abc", "?x=y"])
        c.publish(name, self.rnd.choice(["live", "record", "append"]))

    def do_play(self, e, i, log):
        s = e["s"]
        srvs, app, name = self.names[e["n"]]
        if s in self.flv:
            k = self.rnd.choice(srvs)
            self.ver[s] = f"pv-{self.tag}-{s}-{i}"
            self.flvc[s] = FlvClient(self.ng.ports[3 + k], f"/{app}/{name}{self.rnd.choice(['', '.flv'])}?flashver={self.ver[s]}")
            return
        c = self.conns[s]
        c.play(name + ("" if e["k"] == "again" else self.rnd.choice(["", "?a=b"])), *self.rnd.choice([(-2000,), (-1000,), (0,), (-2, -1, True)]))

    def do_pause(self, e, i, log):
        c = self.conns[e["s"]]
        c.cmd("pause", None, True, 0, sid=c.sid)

    def do_unpause(self, e, i, log):
        c = self.conns[e["s"]]
        c.cmd("pause", None, False, 0, sid=c.sid)

    def do_leave(self, e, i, log):
        c = self.conns[e["s"]]
        if self.rnd.random() < .7:
            c.delete_stream()
        else:
            c.cmd("closeStream", None, sid=c.sid)

    def do_drop(self, e, i, log):
        s = e["s"]
        self.flush()            # compare what it got so far
        c = self.conns.pop(s, None) or self.flvc.pop(s)
        if self.rnd.random() < .4:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c.close()

    def payload(self, k, f):
        rnd = self.rnd
        n = rnd.choice([0, 1, 5, 20, 100, 130, 600, 4000, 4096, 5000]) if rnd.random() < .95 else rnd.randrange(20000, 90000)
        body = b"%08d" % f + bytes(rnd.getrandbits(8) for _ in range(min(n, 64))) * (max(n, 64) // 64)
        body = body[:max(8, n)]
        cod = self.codec
        if k == "a":
            return (b"\xaf\x01" if cod != "plain" else rnd.choice([b"\x2f", b"\x3f"]) + b"\x01") + body
        if k == "ah":
            return b"\xaf\x00" + rnd.choice([b"\x12\x10", b"\x11\x90", b"\x14\x08"]) + b"%08d" % f
        if k == "vh":
            return b"\x17\x00\0\0\0" + b"\x01\x64\x00\x1f\xff\xe1\x00\x19\x67\x64\x00\x1f\xac\xd9\x40\x50\x05\xbb\x01\x10\x00\x00\x03\x00\x10\x00\x00\x03\x03\xc0\xf1\x83\x19\x60\x01\x00\x06\x68\xeb\xe3\xcb\x22\xc0" + b"%08d" % f
        if k == "hh":
            return b"\x1c\x00\0\0\0" + b"\x01" + bytes(21) + b"\x00" + b"%08d" % f
        if k in ("k", "i"):
            c = {"avc": 7, "hevc": 12, "plain": 2}[cod]
            return bytes([(0x10 if k == "k" else 0x20) | c, 1, 0, 0, rnd.choice([0, 0, 40])]) + body
        if k == "x":
            return bytes([rnd.choice([0x30, 0x50, 0x40, 0x00]) | 7, 1, 0, 0, 0]) + body
        raise ValueError(k)

    def frame(self, s, k, f):
        c = self.conns[s]
        step = self.rnd.choice([0, 1, 20, 23, 40, 40, 40, 1000]) if self.rnd.random() < .95 else -10
        ts = self.lastts[s] = max(0, (self.lastts[s] + step)) & 0xFFFFFFFF
        if k == "m":
            p = rtmp.amf("@setDataFrame", "onMetaData", self.rnd.choice([lambda d: d, lambda d: rtmp.Ecma(**d)])({"width": float(f), "height": 7.0}))
            self.frames[f] = (k, 0, p)
            c.send(META, p, ts=ts)
            return
        p = self.payload(k, f)
        self.frames[f] = (k, ts, p)
        c.send(AUDIO if k in ("a", "ah") else VIDEO, p, ts=ts)

    # ------------------------------------------------------- comparison
    def tok(self, m, s):
        """Observed message -> token string, None to ignore."""
        if m.type == CMD:
            v = rtmp.amf_all(m.data)
            if v[0] == "onStatus":
                code = v[-1].get("code")
                return CODE2TOK.get(code, code)
            return "cmd:" + str(v[0])
        if m.type == 4:
            t = struct.unpack(">H", m.data[:2])[0]
            if t == 0:
                return "Begin"
            if t == 1:
                return "Eof"
            return None if t in (6, 7) else f"user:{t}"
        if m.type in (1, 2, 3, 5, 6):
            return None
        if m.type == META:
            try:
                v = rtmp.amf_all(m.data)
            except Exception:
                return "badmeta"
            if v[0] == "|RtmpSampleAccess":
                return None
            if v[0] == "onMetaData" and isinstance(v[1], dict) and v[1].get("height") == 7.0:
                return f"m{int(v[1].get('width', -1))}@{m.ts}"
            return "meta:" + str(v)[:80]
        if m.type in (AUDIO, VIDEO):
            return (m.type, m.ts, m.data)
        return f"type{m.type}"

    def want(self, t):
        k = t["k"]
        if k == "m":
            return f"m{t['f']}@0"
        if k == "d":
            return (AUDIO, self.frames[t["t"]][1], b"")
        if k in MEDIA:
            return (AUDIO if k in ("a", "ah") else VIDEO, self.frames[t["t"]][1], self.frames[t["f"]][2])
        return k

    @staticmethod
    def show(x):
        if isinstance(x, tuple):
            return f"({x[0]},{x[1]},{x[2][:14].hex()}..{len(x[2])})"
        return str(x)

    def compare(self, s, got, exp, closing=False):
        g = [x for x in (self.tok(m, s) for m in got) if x is not None]
        w = [self.want(t) for t in exp if t["k"] != "Closed"]
        if s in self.flv:
            w = [self.want(t) for t in exp if t["k"] in MEDIA]
        if closing and len(g) < len(w):     # the last messages of a closed connection may be lost
            w = w[:len(g)]
        if g != w:
            for i in range(max(len(g), len(w))):
                if i >= len(g) or i >= len(w) or g[i] != w[i]:
                    break
            raise Mismatch(f"{self.where} ({self.prof}): client {s} must observe [{', '.join(map(self.show, w[:i + 3]))}"
                           f"{', ..' if len(w) > i + 3 else ''}] ({len(w)}) but observed [{', '.join(map(self.show, g[:i + 3]))}"
                           f"{', ..' if len(g) > i + 3 else ''}] ({len(g)}), first difference at {i}")

    def sync(self, s):
        """Everything s sent is processed."""
        c = self.conns.get(s)
        if c is None:
            return
        try:
            c.pre = getattr(c, "pre", []) + c.sync()
        except Closed:
            raise Mismatch(f"{self.where}: the connection of client {s} was closed")
        except Timeout:
            raise Mismatch(f"{self.where}: no answer to client {s}")

    def flush(self, actor=None, reg=None):
        """Compares everything each client observed with its pending tokens."""
        closing = {s for s, t in self.pend.items() if any(x["k"] == "Closed" for x in t)}
        if actor is not None and actor in self.conns and actor not in closing:
            self.sync(actor)
        if reg is not None:
            self.check_reg(reg)
        for s in sorted(closing):
            c = self.conns.get(s) or self.flvc.get(s)
            if not c.wait_closed(6):
                raise Mismatch(f"{self.where}: the connection of client {s} must be closed")
            self.compare(s, getattr(c, "pre", []) + c.take(), self.pend.pop(s), True)
            if s in self.flv and c.status is None and not c.closed:
                raise Mismatch(f"{self.where}: client {s} got no HTTP answer")
            c.close()
            self.conns.pop(s, None)
            self.flvc.pop(s, None)
        for s in sorted(self.conns):
            c = self.conns[s]
            self.sync(s)
            got, c.pre = c.pre, []
            self.compare(s, got, self.pend.pop(s, []))
        for s in sorted(self.flvc):
            c = self.flvc[s]
            exp = self.pend.pop(s, [])
            n = sum(1 for t in exp if t["k"] in MEDIA)
            end = time.time() + 6
            while len(c.inbox) < n and not c.closed and time.time() < end:
                c.read_some(end - time.time())
            c.drain()
            if c.closed:
                raise Mismatch(f"{self.where}: HTTP-FLV player {s} was closed (status {c.status})")
            self.compare(s, c.take(), exp)

    def expect_reg(self, reg):
        r = {}
        for n, pq in enumerate(reg, 1):
            if pq["p"] or pq["q"] or pq["d"]:
                srvs, app, name = self.names[n]
                sid = "s1" if srvs == (1,) else "s0"
                r[f"{sid}/{app}/{name}"] = (sorted((self.ver[s], "rtmp") for s in pq["p"]),
                                            sorted((self.ver[s], "http-flv" if s in self.flv else "rtmp") for s in pq["q"]))
        return r

    def check_reg(self, reg):
        want = self.expect_reg(reg)
        end = time.time() + 6
        while True:
            got = {k: v for k, v in self.registry().items() if self.tag in k}
            if got == want:
                return
            if time.time() > end:
                raise Mismatch(f"{self.where}: the registry must be {want} but is {got}")
            time.sleep(.004)

    def final(self, log):
        """All clients leave: the streams are gone and everything is given back."""
        self.where = "the end"
        for c in list(self.conns.values()) + list(self.flvc.values()):
            c.close()
        self.conns, self.flvc = {}, {}
        end = time.time() + 6
        while True:
            got = {k: v for k, v in self.registry().items() if self.tag in k}
            st = self.state()
            bad = {k: (self.base[k], v) for k, v in st.items() if v != self.base[k]} if self.leaks else {}
            if not got and not bad:
                return
            if time.time() > end:
                if got:
                    raise Mismatch(f"all clients are gone but the registry still has {got}")
                raise Mismatch("all clients are gone but objects are not given back (kind: before, now): " + str(bad))
            time.sleep(.01)


class AsanLiveRunner(LiveRunner):
    flavor = "asan"


def behaviours(profile, num, depth, seed, procs=2, **kw):
    import tla
    flv = kw.pop("flv", [])
    c = consts(profile, Gen=True, **dict(dict(Sess="1..5", Names="{1,2}", Pris="{0,1}", MaxFrames=1000,
                                              Kinds='{"a","k","i"}', FlvSess=set(flv)), **kw))
    return [{"profile": profile, "flv": list(flv), "log": l}
            for l in tla.simulate("Live", c, num, depth, seed, next="GenNext", procs=procs)]

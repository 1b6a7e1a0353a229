"""Replays behaviours of spec/Relay.tla: configured pushes and pulls against
scripted upstream servers."""
import hashlib
import json
import random
import re
import select
import socket
import struct
import time

import nginxd
import rtmp
from check import Mismatch
from live import FlvClient
from rtmp import AUDIO, CMD, VIDEO, Conn

RETRY = 1500    # ms, attempt timeout and longest pause
PAUSE = 120     # ms, the first pause
PATIENCE = 6
# app: kinds of the targets, ports of the urls of each target, what is asked for there (app, name, domain; None: as here)
APPS = {
    "push": ("push push", [[2], [3, 4]], [(None, None, None), ("other", "ren?k=v", "dd.com")]),
    "pull": ("pull", [[5, 6]], [(None, None, None)]),
    "pul2": ("pull", [[5, 6]], [("far/app", "ren", None)]),
    "http": ("pull", [[7, 8]], [(None, None, None)]),
    "mixr": ("push pull", [[2], [5, 6]], [(None, None, None), (None, None, None)]),
    "mixh": ("push pull", [[2], [7, 8]], [(None, None, None), ("up", "ren?k=v", "dd.com")]),
    "htt2": ("pull", [[7, 8]], [("up", "ren?k=v", "dd.com")]),
}


def conf():
    apps = ""
    for a, (kinds, ports, ask) in APPS.items():
        d = ""
        for kind, us, (app, name, dom) in zip(kinds.split(), ports, ask):
            scheme = "http" if us[0] == 7 else "rtmp"
            d += f" {kind} " + " ".join(f"{scheme}://127.0.0.1:{{p{u}}}" for u in us)
            if app:
                n, _, p = name.partition("?")
                d += f" app={app} name={n}" + (f" pargs={p}" if p else "") + (f" domain={dom}" if dom else "")
            d += ";"
        apps += f"  application {a} {{ live on; failed_reconnect {PAUSE}ms; relay_reconnect {RETRY}ms;{d} }}\n"
    return ("worker_processes 1;\nevents { worker_connections 256; }\n"
            f"rtmp {{ server {{ listen {{p0}};\n{apps} }} }}\n"
            "http { access_log off; keepalive_timeout 0; server { listen {p1}; location /pv { pv_state; } location / { flv_live {p0}; } } }\n")


class Upstream(Conn):
    """The server's end of a relay connection."""

    def __init__(self, sock):
        self.pre = sock
        super().__init__(None, timeout=PATIENCE, handshake=False)
        self.shaken = False
        self.cmds = []

    def wait_closed(self, timeout):
        return HttpUpstream.wait_closed(self, timeout) if not self.shaken else super().wait_closed(timeout)

    def command(self):
        _, m = self.wait(lambda m: m.type == CMD)
        v = rtmp.amf_all(m.data)
        self.cmds.append(v)
        return v

    def upto(self, stage):
        """serves the connection that far; returns the last command"""
        v = None
        if stage >= 1:
            c = self._readn(1537)
            if c[0] != 3:
                raise Mismatch("bad handshake version")
            s1 = b"\0\0\0\0\0\0\0\0" + bytes(range(256)) * 6
            self.sock.sendall(b"\x03" + s1[:1536] + c[1:])
            self._readn(1536)
            self.shaken = True
            v = self.command()
            if v[0] != "connect":
                raise Mismatch(f"relay says {v!r} instead of connect")
            self.tx = v[1]
        if stage >= 2:
            self.send(CMD, rtmp.amf("_result", self.tx, {"fmsVer": "x"}, {"level": "status", "code": "NetConnection.Connect.Success", "description": "x"}), sid=0)
            v = self.command()
            while v[0] != "createStream":
                if v[0] not in ("releaseStream", "FCPublish"):
                    raise Mismatch(f"relay says {v!r} instead of createStream")
                v = self.command()
            self.tx = v[1]
        if stage >= 3:
            self.send(CMD, rtmp.amf("_result", self.tx, None, 1.0), sid=0)
            v = self.command()
        return v

    def status(self, level, code):
        self.send(CMD, rtmp.amf("onStatus", 0.0, None, {"level": level, "code": code, "description": "d"}), sid=1)

    def frames(self):
        self.drain()
        return [(m.type, m.ts, bytes(m.data)) for m in self.take() if m.type in (AUDIO, VIDEO)]


class HttpUpstream:
    def __init__(self, sock):
        self.sock = sock
        sock.settimeout(PATIENCE)
        self.closed = False
        self.last = None

    def request(self):
        b = b""
        while b"\r\n\r\n" not in b:
            x = self.sock.recv(65536)
            if not x:
                raise rtmp.Closed()
            b += x
        return b.decode("latin1")

    def wait_closed(self, timeout):
        end = time.time() + timeout
        while not self.closed:
            if not select.select([self.sock], [], [], max(0, end - time.time()))[0]:
                return False
            try:
                if not self.sock.recv(65536):
                    self.closed = True
            except OSError:
                self.closed = True
        return True

    def close(self):
        self.sock.close()
        self.closed = True


def tag(type, ts, data):
    return bytes([type]) + len(data).to_bytes(3, "big") + (ts & 0xFFFFFF).to_bytes(3, "big") + bytes([ts >> 24]) + b"\0\0\0" + data + (len(data) + 11).to_bytes(4, "big")


class RelayRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=9, harness=True, level="info")
        self.count = 0
        self.base = None
        self.lis = {}
        for p in range(2, 9):
            self.listen(p)

    def listen(self, p):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", self.ng.ports[p]))
        s.listen(32)
        self.lis[p] = s

    def close(self):
        self.ng.stop()
        for s in self.lis.values():
            s.close()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return "the worker was replaced"

    # ------------------------------------------------------------------
    def run(self, b):
        self.rnd = random.Random(hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest())
        self.kind = b["kind"]
        self.app = self.rnd.choice([a for a, v in APPS.items() if v[0] == self.kind])
        kinds, self.urls, self.ask = APPS[self.app]
        self.kinds = kinds.split()
        self.http = [u[0] == 7 for u in self.urls]
        self.count += 1
        self.name = f"n{self.count}"
        self.up = [None] * len(self.urls)       # connection of each target
        self.n = [0] * len(self.urls)
        self.st = ["off"] * len(self.urls)
        self.loose = [False] * len(self.urls)   # went off while a call may have been under way
        self.pub, self.players = None, []
        self.serial = 0
        self.where = "start"
        try:
            for i, x in enumerate(b["log"], 1):
                e, o = x["e"], x["o"]
                self.where = f"{self.app} step {i} " + " ".join(str(v) for v in e.values())
                getattr(self, "do_" + e["a"])(e, o)
                self.reconcile(o)
            self.where = f"{self.app} when everybody has gone"
            while self.players:
                self.do_leave(None, None)
            if self.pub:
                self.do_unpub(None, None)
            last = b["log"][-1]["o"]
            self.reconcile({"t": [dict(r, st="off") for r in last["t"]]})
            time.sleep(.4)
            self.nocall()
        except (rtmp.Closed, rtmp.Timeout, rtmp.ProtocolError, OSError) as e:
            raise Mismatch(f"{self.where}: {e!r}")
        finally:
            for c in [self.pub] + [p[0] for p in self.players] + self.up:
                if c is not None:
                    c.close()
            for p in range(2, 9):
                if p not in self.lis:
                    self.listen(p)
                while select.select([self.lis[p]], [], [], 0)[0]:
                    self.lis[p].accept()[0].close()
        self.pools()
        return len(b["log"])

    def pools(self):
        end = time.time() + PATIENCE
        while True:
            t = nginxd.http_get(self.ng.ports[1], "/pv")[2].decode()
            v = {k: int(n) for k, n in (l.rsplit(": ", 1) for l in t.splitlines() if ": " in l)}
            now = {k: v[f"{m} nalloc {w}"] - v[f"{m} nfree {w}"] for k, m, w in
                   (("streams", "ngx_live", "stream"), ("pools", "ngx_poold", "node"), ("timers", "ngx_timerd", "node"))}
            if self.base is None:
                time.sleep(.1)
                self.base = now
            if now == self.base:
                return
            if time.time() > end:
                raise Mismatch(f"{self.where}: in use {now}, before {self.base}")
            time.sleep(.02)

    def nocall(self):
        """nobody calls where nobody should"""
        for x, us in enumerate(self.urls):
            for u in us:
                while u in self.lis and self.st[x] != "wait" and select.select([self.lis[u]], [], [], 0)[0]:
                    s, _ = self.lis[u].accept()
                    h = HttpUpstream(s)
                    ok = self.loose[x] and self.st[x] == "off" and h.wait_closed(PATIENCE)
                    s.close()
                    if not ok:
                        raise Mismatch(f"{self.where}: target {x + 1} is called ({u}) although it is {self.st[x]}")

    def reconcile(self, o):
        for x, r in enumerate(o["t"]):
            was, self.st[x] = self.st[x], r["st"]
            if was != "off":
                self.loose[x] = was == "wait" and r["st"] == "off"
            if r["st"] in ("off", "wait") or r["n"] > self.n[x]:
                c, self.up[x] = self.up[x], None
                if c is not None:
                    if not c.closed and not c.wait_closed(PATIENCE):
                        raise Mismatch(f"{self.where}: the connection of target {x + 1} is not closed")
                    c.close()
            if r["st"] in ("try", "on") and r["n"] > self.n[x]:
                self.n[x] = r["n"]
                l = self.lis[self.urls[x][r["u"] - 1]]
                if not select.select([l], [], [], PATIENCE)[0]:
                    raise Mismatch(f"{self.where}: url {r['u']} of target {x + 1} is not called")
                s, _ = l.accept()
                self.up[x] = (HttpUpstream if self.http[x] else Upstream)(s)
        self.nocall()

    # ---------------------------------------------------------- here
    def session(self):
        c = Conn(("127.0.0.1", self.ng.ports[0]), timeout=PATIENCE)
        c.connect(self.app)
        c.create_stream()
        return c

    def do_pub(self, e, o):
        self.pub = self.session()
        self.pub.publish(self.name)
        if "NetStream.Publish.Start" not in rtmp.statuses(self.pub.sync()):
            raise Mismatch(f"{self.where}: publishing is refused")

    def do_unpub(self, e, o):
        if self.rnd.random() < .5:
            self.pub.delete_stream()
            self.pub.sync()
        self.pub.close()
        self.pub = None
        time.sleep(.01)

    def do_play(self, e, o):
        if self.rnd.random() < .4:
            c = FlvClient(self.ng.ports[1], f"/{self.app}/{self.name}")
            for _ in range(2):      # (the header may come with the first frame)
                nginxd.http_get(self.ng.ports[1], "/pv")
            c.drain()
            if c.closed or c.status not in (None, 200):
                raise Mismatch(f"{self.where}: HTTP player refused: {c.status}")
        else:
            c = self.session()
            c.play(self.name)
            c.sync()
        self.players.append((c, []))

    def do_leave(self, e, o):
        c, _ = self.players.pop(self.rnd.randrange(len(self.players)))
        if isinstance(c, Conn) and self.rnd.random() < .5:
            c.delete_stream()
            c.sync()
        c.close()
        time.sleep(.01)

    # ---------------------------------------------------------- there
    def check_request(self, x, v=None, head=None):
        app, name, dom = self.ask[x]
        app = app or self.app
        name = name or self.name
        if self.http[x]:
            l, *hs = head.split("\r\n")
            want = f"GET /{app}/{name} HTTP/1."
            if not l.startswith(want):
                raise Mismatch(f"{self.where}: relay asks {l!r}")
            if dom and f"host: {dom}" not in [h.lower() for h in hs]:
                raise Mismatch(f"{self.where}: relay asks with {hs}")
            return
        c = self.up[x].cmds[0][2]
        if c["app"] != app or (dom and c["tcUrl"] != f"rtmp://{dom}/{app}"):
            raise Mismatch(f"{self.where}: relay connects with {c}")
        if v is not None and (v[0] != ("publish" if self.kinds[x] == "push" else "play") or v[3] != name):
            raise Mismatch(f"{self.where}: relay says {v}")

    def do_fail(self, e, o):
        x = e["x"] - 1
        c = self.up[x]
        how, k = e["how"], self.rnd.randrange(3 if self.http[x] else 4)
        if self.http[x]:
            if k:
                self.check_request(x, head=c.request())
            if k == 2:
                c.sock.sendall(b"HTTP/1.1 200 OK\r\nConte")
        elif how == "error":
            c.upto(1)
            c.send(CMD, rtmp.amf("_error", c.tx, None, {"level": "error", "code": "NetConnection.Connect.Rejected", "description": "x"}), sid=0)
            self.check_request(x)
        elif k:
            v = c.upto(k)
            self.check_request(x, v if k == 3 else None)
        if how == "silent":
            t = time.time()
            if not c.wait_closed(PATIENCE):
                raise Mismatch(f"{self.where}: no timeout of an unanswered attempt")
            return
        if self.rnd.random() < .3:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        end = time.monotonic() + PAUSE / 2000
        c.close()
        if o["t"][x]["st"] == "wait":
            ls = [self.lis[u] for u in self.urls[x] if u in self.lis]
            if select.select(ls, [], [], max(0, end - time.monotonic()))[0] and time.monotonic() < end:
                raise Mismatch(f"{self.where}: target {x + 1} is called again without a pause")

    def do_ok(self, e, o):
        x = e["x"] - 1
        c = self.up[x]
        if self.http[x]:
            self.check_request(x, head=c.request())
            c.chunked = self.rnd.random() < .5
            c.sock.sendall(b"HTTP/1.1 200 OK\r\n" + (b"Transfer-Encoding: chunked\r\n" if c.chunked else b"") + b"\r\n")
            self.hsend(c, b"FLV\x01\x05\0\0\0\x09\0\0\0\0")
            if self.pub is None and self.players:
                self.feed(c, 1)         # (waits until it has got through)
            else:
                time.sleep(.05)
            return
        v = c.upto(3)
        self.check_request(x, v)
        c.send(4, b"\0\0" + struct.pack(">I", 1), sid=0)
        c.status("status", "NetStream.Publish.Start" if self.kinds[x] == "push" else "NetStream.Play.Start")
        c.sync()
        c.take()
        c.set_chunk(self.rnd.choice((128, 4096)))

    def do_lose(self, e, o):
        c = self.up[e["x"] - 1]
        if self.http[e["x"] - 1]:
            k = self.rnd.randrange(3)
            if k == 0:
                self.hsend(c, b"garbage" * 40)
            elif k == 1 and c.chunked:
                c.sock.sendall(b"0\r\n\r\n")
            else:
                c.close()
            return
        if self.rnd.random() < .3:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c.close()

    def do_reject(self, e, o):
        x = e["x"] - 1
        c = self.up[x]
        if self.http[x]:
            self.check_request(x, head=c.request())
            st = self.rnd.choice((400, 403, 404, 503, 500))
            c.sock.sendall(b"HTTP/1.1 %d No\r\nContent-Length: 3\r\n\r\nno!" % st)
            code = st
        else:
            code = self.rnd.choice(("NetStream.Publish.BadName", "NetStream.Stream.Forbidden", "NetStream.Play.StreamNotFound", "NetStream.Relay.ServerError"))
            if self.rnd.random() < .3:
                c.upto(1)
                c.send(CMD, rtmp.amf("_error", c.tx, None, {"level": "error", "code": code, "description": "x"}), sid=0)
            else:
                c.upto(3)
                c.status("error", code)
        hit = [self.pub] if self.kinds[x] == "push" else [p[0] for p in self.players]
        for h in hit:
            if not h.wait_closed(PATIENCE):
                raise Mismatch(f"{self.where}: a client is not closed although the upstream rejects the stream ({code})")
            h.close()
        if self.kinds[x] == "push":
            self.pub = None
        else:
            self.players = []

    def do_wake(self, e, o):
        if self.kinds[e["x"] - 1] == "pull" and self.pub:    # noticed that there is nothing to be pulled
            time.sleep(RETRY / 1000 + .1)

    def do_down(self, e, o):
        self.lis.pop(self.urls[e["x"] - 1][e["u"] - 1]).close()

    def do_up(self, e, o):
        self.listen(self.urls[e["x"] - 1][e["u"] - 1])

    # ---------------------------------------------------------- frames
    def hsend(self, c, data):
        i = 0
        while i < len(data):
            n = self.rnd.choice((1, 7, 300, 100000)) if self.rnd.random() < .5 else len(data)
            p = data[i:i + n]
            c.sock.sendall((b"%x\r\n" % len(p) + p + b"\r\n") if c.chunked else p)
            i += n

    def frame(self):
        self.serial += 1
        n = self.rnd.choice((0, 1, 100, 117, 118, 4085, 4086, 20000))
        ts = self.serial * 7 + (0xFFFFFF if self.serial > 6 else 0)
        return AUDIO, ts, b"\x2f\xff%06d" % self.serial + bytes(self.rnd.randrange(256) for _ in range(min(n, 200))) + b"x" * max(0, n - 200)

    def feed(self, c, k):
        fs = [self.frame() for _ in range(k)]
        for f in fs:
            if isinstance(c, HttpUpstream):
                self.hsend(c, tag(*f))
            else:
                c.send(*(f[0], f[2], f[1]))
        if not isinstance(c, HttpUpstream):
            c.sync() if c is self.pub else None
        return self.expect(fs, [] if c is not self.pub else None)

    def expect(self, fs, targets=None):
        """all players (and pushed-to targets) get exactly fs"""
        to = [(f"player {i + 1}", c, "got") for i, (c, _) in enumerate(self.players)]
        if targets is None:
            to += [(f"target {x + 1}", c, "") for x, c in enumerate(self.up) if self.kinds[x] == "push" and self.st[x] == "on"]
        end = time.time() + PATIENCE
        got = {k: [] for k, _, _ in to}
        while True:
            done = True
            for k, c, _ in to:
                c.drain()
                got[k] += [(m.type, m.ts, bytes(m.data)) for m in c.take() if m.type in (AUDIO, VIDEO)]
                if got[k] != fs[:len(got[k])]:
                    raise Mismatch(f"{self.where}: {k} gets {[(g[1], g[2][:8], len(g[2])) for g in got[k]]} of {[(g[1], g[2][:8], len(g[2])) for g in fs]}")
                if c.closed:
                    raise Mismatch(f"{self.where}: {k} is closed")
                done &= got[k] == fs
            if done:
                return
            if time.time() > end:
                raise Mismatch(f"{self.where}: missing: {dict((k, (len(g), len(fs))) for k, g in got.items() if len(g) < len(fs))}")
            time.sleep(.002)

    def do_send(self, e, o):
        x = next((x for x, k in enumerate(self.kinds) if k == "pull" and self.st[x] == "on"), None)
        c = self.up[x] if x is not None else None
        if self.pub:
            if c:               # not heard as long as there is a publisher
                f = self.frame()
                self.hsend(c, tag(*f)) if self.http[x] else (c.send(f[0], f[2], f[1]), c.sync())
                time.sleep(.02 if self.http[x] else 0)
            self.feed(self.pub, self.rnd.randrange(1, 6))
        elif c:
            self.feed(c, self.rnd.randrange(1, 6))


class AsanRelayRunner(RelayRunner):
    flavor = "asan"

"""Replays behaviours of spec/Mesh.tla: clients publish, play and leave on
three workers, workers are killed, and players must be fed."""
import hashlib
import json
import os
import random
import re
import signal
import time

import nginxd
import rtmp
from check import Mismatch
from live import FlvClient
from rtmp import AUDIO, Conn

N = 3
PATIENCE = 12


def conf():
    return ("worker_processes %d;\nstream_zone buckets=8 streams=512;\n"
            "events { worker_connections 512; multi_listen {p4} {p0}; multi_listen {p8} {p1}; multi_listen unix:{dir}/w {p0}; }\n"
            "rtmp { rtmp_auto_pull on; rtmp_auto_pull_port unix:{dir}/w;\n server { listen {p0}; application m { live on; } application t { live on; failed_reconnect 20ms; relay_reconnect 500ms; } } }\n"
            "http { access_log off; server { listen {p1}; location /pv { pv_state; } location / { flv_live {p0}; } } }\n" % N)


class Player:
    """Counts what it gets of the audio messages b"\\x2f\\xff" + serial number."""

    def __init__(self, open):
        self.got = []
        self.c = open()

    def pump(self):
        self.c.drain()
        self.got += [bytes(m.data) for m in self.c.take() if m.type == AUDIO]
        return self.c.closed


class MeshRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=12, harness=True, level="info")
        self.addr = [("127.0.0.1", self.ng.ports[4] + w) for w in range(N)]
        self.web = [self.ng.ports[8] + w for w in range(N)]
        self.killed = set()
        self.count = 0
        self.flvok = True

    def close(self):
        self.ng.stop()

    def health(self):
        log = self.ng.errors()
        for m in re.finditer(r"worker process (\d+) exited on signal (\d+)", log):
            if int(m.group(1)) not in self.killed or m.group(2) != "9":
                return m.group(0)
        m = re.search(r"exited with fatal code|exited with code [1-9]|AddressSanitizer", log)
        return m and m.group(0)

    # ------------------------------------------------------------------
    def pids(self):
        """the worker processes in the order of their slots"""
        ino = {}
        for l in open("/proc/net/tcp").read().splitlines()[1:]:
            f = l.split()
            if f[3] == "0A":
                ino[f[9]] = int(f[1].split(":")[1], 16)
        out = {}
        for pid in self.ng.workers():
            for fd in os.listdir(f"/proc/{pid}/fd"):
                try:
                    m = re.match(r"socket:\[(\d+)\]", os.readlink(f"/proc/{pid}/fd/{fd}"))
                except OSError:
                    continue
                p = ino.get(m.group(1)) if m else None
                if p in [a[1] for a in self.addr]:
                    out[p - self.addr[0][1]] = pid
        return out

    def session(self, w):
        end = time.time() + PATIENCE
        while True:
            try:
                c = Conn(self.addr[w], timeout=PATIENCE)
                c.connect(self.app)
                c.create_stream()
                return c
            except (OSError, rtmp.Closed) as e:
                if time.time() > end:
                    raise Mismatch(f"{self.where}: worker {w} does not serve: {e!r}")
                time.sleep(.01)

    def flv(self, w):
        end = time.time() + PATIENCE
        while True:
            try:
                return FlvClient(self.web[w], f"/{self.app}/{self.name}")
            except OSError as e:
                if time.time() > end:
                    raise Mismatch(f"{self.where}: worker {w} does not serve: {e!r}")
                time.sleep(.01)

    def play(self, w):
        if self.rnd.random() < .3:
            return Player(lambda: self.flv(w))
        c = self.session(w)
        c.play(self.name)
        return Player(lambda: c)

    # ------------------------------------------------------------------
    def pump(self):
        """whatever has arrived; the client which wants to publish tries again when it was refused or closed"""
        if self.want is not None:
            if self.pub is None and time.time() >= self.again:
                self.pub = self.session(self.want)
                self.pub.publish(self.name)
                self.started = False
            if self.pub is not None:
                self.pub.drain()
                codes = rtmp.statuses(self.pub.take())
                self.started |= "NetStream.Publish.Start" in codes
                if self.pub.closed or "NetStream.Publish.BadName" in codes:
                    self.pub.close()
                    self.pub = None
                    self.again = time.time() + .03
        for w, ps in self.players.items():
            for p in ps:
                n = len(p.got)
                if p.pump():
                    raise Mismatch(f"{self.where}: a player on worker {w} was closed")
                for d in p.got[max(n - 1, 0):]:
                    if not re.fullmatch(rb"\x2f\xff\d{8}x*", d):
                        raise Mismatch(f"{self.where}: a player on worker {w} got {d!r:.80}")
                for a, b in zip(p.got[max(n - 1, 0):], p.got[max(n, 1):]):
                    if a[:10] >= b[:10]:
                        raise Mismatch(f"{self.where}: a player on worker {w} got {b[2:10]} after {a[2:10]}")

    def frame(self, size=0):
        """publishes the next frame; its data, or None if there is no publisher right now"""
        if self.pub is None or not self.started:
            return None
        self.serial += 1
        d = b"\x2f\xff%08d" % self.serial + b"x" * size
        try:
            self.pub.send(AUDIO, d, self.serial)
        except OSError:
            return None
        return d

    def everybody(self):
        return [(w, p) for w, ps in self.players.items() for p in ps]

    def spin(self, sec):
        end = time.time() + sec
        while True:
            self.pump()
            if time.time() >= end:
                return
            time.sleep(.002)

    def settle(self):
        """until a run of frames reaches everybody"""
        if self.want is None:
            self.spin(.05 + .1 * self.rnd.random())
            return
        end = time.time() + PATIENCE
        while True:
            probes = []
            stop = time.time() + .06
            while time.time() < stop or not probes and time.time() < end:
                self.pump()
                probes.append(self.frame())
                if probes[-1] is None:
                    probes = []
                time.sleep(.004)
            t = time.time() + .3
            while True:
                self.pump()
                missing = [w for w, p in self.everybody() if not set(probes) <= set(p.got)]
                if probes and not missing:
                    return
                if time.time() > t:
                    break
                time.sleep(.004)
            if time.time() > end:
                if self.pub is None or not self.started:
                    raise Mismatch(f"{self.where}: the client on worker {self.want} still cannot publish after {PATIENCE} s")
                raise Mismatch(f"{self.where}: players on workers {missing} still get nothing (or not everything) from worker {self.want} after {PATIENCE} s")

    # ------------------------------------------------------------------
    def do_pub(self, w):
        self.want, self.pub, self.again, self.started = w, None, 0, False
        self.pump()

    def do_unpub(self, w):
        c, self.pub, self.want = self.pub, None, None
        if c is None:
            return
        if self.rnd.random() < .5:
            c.delete_stream()
            c.sync()
        c.close()

    def do_play(self, w):
        self.players[w].append(self.play(w))

    def do_leave(self, w):
        p = self.players[w].pop(self.rnd.randrange(len(self.players[w])))
        if isinstance(p.c, Conn) and self.rnd.random() < .5:
            p.c.delete_stream()
            p.c.sync()
        p.c.close()

    def do_die(self, w):
        end = time.time() + PATIENCE
        while w not in self.pids():
            if time.time() > end:
                raise Mismatch(f"{self.where}: there is no worker {w}")
            time.sleep(.01)
        pid = self.pids()[w]
        for p in self.players[w]:
            p.c.close()
        self.players[w] = []
        if self.want == w:
            self.do_unpub(w)
        self.killed.add(pid)
        os.kill(pid, signal.SIGKILL)
        while True:     # (whoever connects before its sockets are closed is closed, too)
            try:
                with open(f"/proc/{pid}/stat") as f:
                    if f.read().rsplit(")", 1)[1].split()[0] in "ZX":
                        break
            except OSError:
                break
            time.sleep(.001)

    def do_send(self, w):
        for tries in range(4):
            ds = [self.frame(self.rnd.choice((0, 0, 100, 5000))) for _ in range(self.rnd.randrange(1, 12))]
            if None in ds:
                self.settle()
                continue
            t = time.time() + 3
            while True:
                self.pump()
                missing = [w for w, p in self.everybody() if [x for x in p.got if x in ds] != ds]
                if not missing:
                    return
                if self.pub is None or time.time() > t:
                    break
                time.sleep(.003)
            self.settle()
        raise Mismatch(f"{self.where}: players on workers {missing} lose frames again and again")

    # ------------------------------------------------------------------
    def run(self, b):
        self.rnd = random.Random(hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest())
        self.count += 1
        self.name = f"n{self.count}"
        self.app = self.rnd.choice("mt")
        self.want = self.pub = None
        self.serial = 0
        self.players = {w: [] for w in range(N)}
        self.where = "start"
        try:
            for i, e in enumerate(b["log"], 1):
                self.where = f"before step {i}"
                if e["quiet"]:
                    self.settle()
                else:
                    self.spin(self.rnd.choice((0, 0, .001, .003, .01, .03)))
                self.where = f"step {i} {e['a']} {e['w']}"
                getattr(self, "do_" + e["a"])(e["w"])
                self.pump()
            self.where = "end"
            self.settle()
            self.where = "when everybody has gone"
            if self.want is not None:
                self.do_unpub(self.want)
        finally:
            for c in [p.c for _, p in self.everybody()] + [self.pub]:
                if c is not None:
                    c.close()
        self.gone()
        return len(b["log"])

    def gone(self):
        """nothing is left of the stream anywhere"""
        end = time.time() + PATIENCE
        while True:
            left = {}
            for w in range(N):
                try:
                    t = nginxd.http_get(self.web[w], "/pv")[2].decode()
                except OSError as e:
                    left[w] = repr(e)
                    continue
                v = {k: int(n) for k, n in (l.rsplit(": ", 1) for l in t.splitlines() if ": " in l)}
                n = v["ngx_live nalloc stream"] - v["ngx_live nfree stream"]
                if n:
                    left[w] = f"{n} streams"
                if v["ngx_stream_zone alloc"]:
                    left["zone"] = v["ngx_stream_zone alloc"]
            if not left:
                return
            if time.time() > end:
                raise Mismatch(f"{self.where}: still held: {left}")
            time.sleep(.02)


class AsanMeshRunner(MeshRunner):
    flavor = "asan"

"""Replays behaviours of spec/Alive.tla in real time: clients which send, answer
and keep silent at given moments, who is asked for a sign of life, and who is
disconnected, when."""
import random
import select
import struct
import time

import nginxd
import rtmp
from check import Mismatch
from rtmp import AUDIO, Conn

TICK = 0.1
P, T, I, H, L, MARGIN = 14, 8, 12, 10, 3, 3
LEN = 85
EARLY, LATE = 0.16, 0.9      # how far an event may be off, s
LAG = 0.06                   # a run in which we or the worker were slower than that tells nothing
WITH = 5                     # behaviours at the same time
ORDER = ("pub", "sub", "req", "mute", "hs")


def conf():
    s = "listen {p%d}; timeout " + f"{int(H * TICK * 1000)}ms; application x {{ live on; drop_idle_publisher {int(I * TICK * 1000)}ms; }}"
    return ("worker_processes 1;\nevents { worker_connections 512; }\n"
            "rtmp { server { ping %dms; ping_timeout %dms; %s }\n server { ping 0; %s } }\n"
            "http { access_log off; server { listen {p2}; location /pv { pv_state; } } }\n"
            % (P * TICK * 1000, T * TICK * 1000, s % 0, s % 1))


def behaviours(num, seed, procs=4):
    import tla
    who = '{"pub", "sub", "req", "mute", "hs"}'
    logs = tla.simulate("Alive", dict(P=P, T=T, I=I, H=H, L=L, Margin=MARGIN, Who=who), num=num, depth=LEN, seed=seed, next="GenNext", procs=procs, timeout=900)
    return [{"log": l} for l in {str(l[:-1]): l for l in logs}.values()]


def groups(bs):
    return [{"all": [b["log"] for b in bs[i:i + WITH]], "seed": i} for i in range(0, len(bs), WITH)]


class Void(Exception):
    """The machine was too slow for a verdict."""


class Client:
    def __init__(self, x, c):
        self.x, self.c = x, c
        self.asked, self.gone, self.media, self.asks = [], None, [], {}
        self.pending = None       # the value of the request which waits for an answer
        self.serial = 0


class AliveRunner:
    flavor = "plain"
    early, late = EARLY, LATE

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=3, harness=True, level="info")
        self.count = 0
        self.voids = 0

    def close(self):
        self.ng.stop()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return "the worker was replaced"

    def run(self, b):
        rng = random.Random(b["seed"])
        for k in range(8):
            try:
                return self.once(b["all"], rng)
            except Void:
                self.voids += 1
                time.sleep(rng.random() * 4)
        return 0

    def conn(self, port, **kw):
        c = Conn(("127.0.0.1", self.ng.ports[port]), timeout=5, **kw)
        c.auto_pong = False
        return c

    def once(self, logs, rng):
        fams = []
        probe = self.conn(1)
        probe.connect("x")
        try:
            t00 = time.monotonic()
            names = []
            for log in logs:
                self.count += 1
                names.append(f"s{self.count}")
            for log, name in zip(logs, names):
                f = {}
                for x in ORDER:
                    f[x] = Client(x, self.conn(1 if x in ("mute", "hs") else 0, handshake=x != "hs"))
                fams.append(f)
            t0 = time.monotonic()
            if t0 - t00 > 2 * LAG:
                raise Void
            for f, name in zip(fams, names):
                for x in ("pub", "sub", "req", "mute"):
                    c = f[x].c
                    c.cmd("connect", {"app": "x", "flashVer": name + x, "tcUrl": "rtmp://h/x"})
                    if x in ("pub", "sub"):
                        c.cmd("createStream", None)
                        c.cmd("publish", None, name, "live", sid=1) if x == "pub" else c.cmd("play", None, name, sid=1)
                f["hs"].rest = bytearray(b"\x03" + bytes(4) + bytes(4) + rng.randbytes(1528))
            if time.monotonic() - t0 > LAG:
                raise Void
            n = len(logs[0])
            steps = 0
            last = time.monotonic()
            ask = [0, None]
            for i in range(min(map(len, logs)) + 14):
                at = t0 + (i + 1) * TICK
                while True:
                    now = time.monotonic()
                    if now - last > LAG:
                        raise Void
                    last = now
                    self.pump(fams, now, t0)
                    self.beat(probe, ask, now)
                    now = time.monotonic()
                    if now >= at:
                        break
                    time.sleep(min(0.008, at - now))
                if now - at > LAG:
                    raise Void
                for k, (f, log) in enumerate(zip(fams, logs)):
                    if i < len(log):
                        for x in ORDER:
                            if log[i]["in"][x]:
                                self.send(f[x], log[i]["in"][x], rng, now, f)
                                steps += 1
            self.judge(fams, logs, t0)
            return steps
        finally:
            probe.close()
            for f in fams:
                for q in f.values():
                    q.c.close()

    def beat(self, probe, ask, now):
        """The worker is asked itself, all the time, and has to answer at once."""
        probe.drain()
        for m in probe.take():
            if m.type == 4 and m.data[:2] == b"\0\7" and m.data[2:6] == struct.pack(">I", ask[0]):
                ask[1] = None
        if ask[1] is not None:
            if now - ask[1] > LAG:
                raise Void
            return
        ask[0] += 1
        ask[1] = now
        probe.send(4, b"\0\6" + struct.pack(">I", ask[0]), sid=0, csid=2)

    def pump(self, fams, now, t0):
        for f in fams:
            for q in f.values():
                if q.gone is not None:
                    continue
                try:
                    if q.x == "hs":
                        if self.shut(q.c.sock):
                            q.gone = now - t0
                        continue
                    q.c.drain()
                    ms = q.c.take()
                except rtmp.Closed:
                    ms = q.c.take()
                    q.c.closed = True
                for m in ms:
                    d = bytes(m.data)
                    if m.type == 4 and d[:2] == b"\0\6":
                        q.asked.append(now - t0)
                        q.pending = d[2:6]
                    elif m.type == 4 and d[:2] == b"\0\7":
                        if d[2:] not in q.asks:
                            raise Mismatch(f"{q.x}: an answer to a ping request which was not sent: {d.hex()}")
                        if now - q.asks.pop(d[2:]) > self.late:
                            raise Mismatch(f"{q.x}: a ping request was answered late")
                    elif m.type == AUDIO:
                        q.media.append(d)
                if q.c.closed:
                    q.gone = now - t0

    @staticmethod
    def shut(sock):
        while select.select([sock], [], [], 0)[0]:
            try:
                if not sock.recv(65536):
                    return True
            except OSError:
                return True
        return False

    def send(self, q, k, rng, now, f):
        if q.gone is not None:
            return          # earlier than expected, which is judged in the end
        try:
            if q.x == "hs":
                n = len(q.rest) if k == "whole" else min(len(q.rest) - 1, rng.randint(1, 60))
                q.c.sock.sendall(bytes(q.rest[:n]))
                del q.rest[:n]
                if k == "whole":
                    q.serial += 1
                    q.rest = bytearray(rng.randbytes(1536))
                return
            if k == "answer":
                q.c.send(4, b"\0\7" + (q.pending or struct.pack(">I", rng.getrandbits(32))), sid=0, csid=2)
                q.pending = None
            elif k == "ask":
                v = rng.choice([0, 0xffffffff, 0x80000000, rng.getrandbits(32)])
                v = struct.pack(">I", v)
                while v in q.asks:
                    v = struct.pack(">I", rng.getrandbits(32))
                q.asks[v] = now
                q.c.send(4, b"\0\6" + v, sid=0, csid=2)
            elif k == "ack":
                q.c.send(3, struct.pack(">I", rng.getrandbits(31)), sid=0, csid=2)
            elif k == "media":
                q.serial += 1
                q.c.send(AUDIO, b"\x2f\xff" + struct.pack(">I", q.serial), q.serial * 20, sid=1)
            elif k == "stop":
                q.c.cmd("deleteStream", None, 1)
        except OSError:
            pass            # closed, which is seen at the next look

    def judge(self, fams, logs, t0):
        for n, (f, log) in enumerate(zip(fams, logs)):
            for x in ORDER:
                q = f[x]
                want = [(i + 1) * TICK for i, e in enumerate(log) if x in e["asked"]]
                gone = [(i + 1) * TICK for i, e in enumerate(log) if x in e["gone"]]
                tell = f"{x} ({log[0]['temper'][x]}), asked for a sign of life at {[round(a, 2) for a in q.asked]}, disconnected at {q.gone and round(q.gone, 2)}; the specification: asked at {[round(a, 2) for a in want]}, disconnected at {gone and round(gone[0], 2)}; sent " + \
                    " ".join(f"{(i + 1) * TICK:.1f}:{e['in'][x]}" for i, e in enumerate(log) if e["in"][x])
                end = len(log) * TICK
                got = [a for a in q.asked if a < end - self.late]
                if len(got) < len([w for w in want if w < end - 2 * self.late]) or len(got) > len(want):
                    raise Mismatch(tell)
                for g, w in zip(got, want):
                    if not -self.early <= g - w <= self.late:
                        raise Mismatch(tell)
                if gone and (q.gone is None or not -self.early <= q.gone - gone[0] <= self.late):
                    raise Mismatch(tell)
                if not gone and q.gone is not None and q.gone < end - self.late:
                    raise Mismatch(tell)
                if q.gone is None and any(now < t0 + end - self.late for now in q.asks.values()):
                    raise Mismatch(f"{x}: a ping request was not answered; " + tell)
            fed = sum(e["fed"] for e in log)
            if f["sub"].gone is None and len(f["sub"].media) < fed:
                raise Mismatch(f"the player got {len(f['sub'].media)} of {fed} messages")


class AsanAliveRunner(AliveRunner):
    flavor = "asan"

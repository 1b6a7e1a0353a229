"""Replays behaviours of spec/Chunk.tla: a publisher encodes exactly the
chunks of the behaviour, a player must receive exactly the messages the
specification completes; and malformed variants of the same byte streams."""
import hashlib
import json
import random
import socket
import struct
import time

import nginxd
import rtmp
from check import Mismatch
from rtmp import AUDIO, VIDEO, Conn, Closed, Timeout

MAXMSG = 250000
LIM = [65600, 400, 64]


def conf():
    s = ""
    for i, o in enumerate([f"max_streams {LIM[0]}; max_message {MAXMSG};", f"max_streams {LIM[1]}; max_message {MAXMSG}; publish_time_fix off;",
                           f"max_message {MAXMSG}; chunk_size 5000;"]):
        s += f" server {{ listen {{p{i}}}; serverid s; {o} application live {{ live on; }} }}\n"
    return "worker_processes 1;\nevents { worker_connections 512; }\nrtmp {\n" + s + "}\n" + \
           "http { access_log off; server { listen {p3}; location /pv { pv_state; } } }\n"


SCALES = {"ext4": (4, 0x400000, 1024), "ext3": (3, 0x555555, 700), "small": (1000000, 20, 100000000)}
TYPES = {"a": AUDIO, "v": VIDEO, "g": 22}


def behaviours(num, depth, seed, scale, types='{"a","v"}', timefix=True, procs=2, **kw):
    import tla
    ext, u, mod = SCALES[scale]
    c = dict(dict(Cs="1..3", Lens="1..5", ChunkSizes="1..3", Types=types, Steps="{0,1,2,3,5}", EXT=ext, MOD=mod, MaxMsgs=100000,
                  TimeFix=timefix, Aborts=True, Gen=True), **kw)
    return [{"scale": scale, "timefix": timefix, "agg": "g" in types, "log": l}
            for l in tla.simulate("Chunk", c, num, depth, seed, next="GenNext", procs=procs)]


class Encoder:
    """Turns the events of a behaviour into bytes."""

    def __init__(self, b, rnd, lim):
        self.b, self.rnd = b, rnd
        self.u = SCALES[b["scale"]][1]
        self.k = rnd.choice([64, 64, 128, 1000, 4096, 20000] if b["agg"] else [1, 1, 2, 7, 50, 64, 128, 1000, 4096, 20000])
        pool = [list(range(4, 64)), list(range(64, min(320, lim))), list(range(320, lim))]
        pool = [p for p in pool if p]
        self.csid = {}
        for c in range(1, 4):
            p = rnd.choice(pool)
            self.csid[c] = rnd.choice([p[0], p[-1], rnd.choice(p)])
            while list(self.csid.values()).count(self.csid[c]) > 1:
                self.csid[c] = rnd.choice(rnd.choice(pool))
        self.chunk = 128
        self.pay, self.real, self.parts = {}, {}, {}

    def basic(self, fmt, csid):
        if csid < 64:
            return bytes([fmt << 6 | csid])
        if csid < 320 and self.rnd.random() < .6:
            return bytes([fmt << 6, csid - 64])
        return bytes([fmt << 6 | 1, (csid - 64) & 255, (csid - 64) >> 8])

    def control(self, type, data):
        """A whole control message on csid 2."""
        out = bytes([2]) + b"\0\0\0" + len(data).to_bytes(3, "big") + bytes([type]) + bytes(4) + data[:self.chunk]
        for i in range(self.chunk, len(data), self.chunk):
            out += b"\xc2" + data[i:i + self.chunk]
        return out

    def ts(self, t):
        return t * self.u & 0xFFFFFFFF

    def payload(self, e):
        rnd, k = self.rnd, self.k
        if e["fmt"] >= 2:
            n = self.real[e["cs"]]
        else:
            n = e["len"] * k - rnd.choice([0, 0, k - 1, rnd.randrange(k)])
            if e["ty"] == "g" and n < 60:
                n = e["len"] * k
        self.real[e["cs"]] = n
        fill = lambda m: (struct.pack(">I", rnd.getrandbits(32)) * (m // 4 + 1))[:m]
        ts = self.ts(e["ts"])
        if e["ty"] != "g":
            p = ((b"\x2f" if e["ty"] == "a" else b"\x12") + b"%06d" % e["id"] + fill(max(0, n - 7)))[:n]
            self.parts[e["id"]] = {0: (TYPES[e["ty"]], ts, p)}
            return p
        base = rnd.choice([0, 0, ts, rnd.getrandbits(32)])
        d = self.ts(e["sub"])
        n1 = rnd.randrange(1, n - 30)
        out, pr = b"", {}
        for j, (m, dt) in enumerate([(n1, 0), (n - 30 - n1, d)], 1):
            ty = rnd.choice([AUDIO, VIDEO])
            p = ((b"\x2f" if ty == AUDIO else b"\x12") + b"%05d%d" % (e["id"], j) + fill(max(0, m - 7)))[:m]
            t = (base + dt) & 0xFFFFFFFF
            out += bytes([ty]) + m.to_bytes(3, "big") + (t & 0xFFFFFF).to_bytes(3, "big") + bytes([t >> 24]) + b"\0\0\0" + p + struct.pack(">I", m + 11)
            pr[j] = (ty, (ts + dt) & 0xFFFFFFFF, p)
        self.parts[e["id"]] = pr
        return out

    def event(self, e):
        if e["a"] == "set":
            b = self.control(1, struct.pack(">I", e["n"] * self.k))
            self.chunk = e["n"] * self.k
            return b
        if e["a"] == "abort":
            return self.control(2, struct.pack(">I", self.csid[e["cs"]]))
        if e["new"]:
            self.pay[e["id"]] = self.payload(e)
            self.off = getattr(self, "off", {})
            self.off[e["id"]] = 0
        p = self.pay[e["id"]]
        out = self.basic(e["fmt"], self.csid[e["cs"]])
        ext = None
        f = e["f"] * self.u
        if e["fmt"] <= 2:
            out += min(f, 0xFFFFFF).to_bytes(3, "big")
            ext = f if f >= 0xFFFFFF else None
            if e["fmt"] <= 1:
                out += len(p).to_bytes(3, "big") + bytes([TYPES[e["ty"]]])
            if e["fmt"] == 0:
                out += (1).to_bytes(4, "little")
        elif e["f"] and self.b["timefix"]:
            ext = f
        if ext is not None:
            out += struct.pack(">I", ext)
        o = self.off[e["id"]]
        out += p[o:o + self.chunk]
        self.off[e["id"]] = o + self.chunk
        if (o + self.chunk >= len(p)) != e["fin"]:
            raise RuntimeError("the driver's chunking differs from the model's")
        return out

    def done(self, e):
        if e["a"] != "c" or not e["fin"]:
            return []
        return [self.parts[e["id"]][j] for j in sorted(self.parts[e["id"]])]


class ChunkRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=4, harness=True)

    def close(self):
        self.ng.stop()

    def health(self):
        return self.ng.crashed() or (None if self.ng.workers() == self.ng.worker0 else "the worker was replaced")

    def conn(self, i):
        c = Conn(("127.0.0.1", self.ng.ports[i]), timeout=8)
        c.connect("live")
        c.create_stream()
        return c

    def send(self, c, data):
        """With random TCP segmentation."""
        rnd = self.rnd
        cuts = sorted(rnd.randrange(len(data)) for _ in range(rnd.choice([0, 0, 1, 3, 8]))) if len(data) > 1 else []
        if rnd.random() < .1:
            i = rnd.randrange(len(data))
            cuts = sorted(cuts + [min(len(data), i + j) for j in range(12)])
        o = 0
        for x in cuts + [len(data)]:
            if x > o:
                c.send_raw(data[o:x])
                o = x
                if x != len(data):
                    time.sleep(.0007)

    def run(self, b):
        seed = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        rnd = self.rnd = random.Random(seed)
        i = 0 if b["timefix"] else 1
        enc = Encoder(b, rnd, LIM[i])
        name = seed[:10]
        pub, ply = self.conn(i), self.conn(2)
        try:
            pub.publish(name)
            pub.sync()
            ply.play(name)
            ply.sync()
            if "fuzz" in b:
                return self.fuzz(b, enc, pub, ply)
            acks = 0
            if rnd.random() < .5:
                acks = rnd.choice([1, 100, 3000, 50000])
                pub.send(5, struct.pack(">I", acks), sid=0, csid=2)
                self.sync(pub)
            want, buf, first = [], b"", True
            # the behaviour starts with a chunk size of its own
            e0 = self.initial(b)
            buf += enc.event({"a": "set", "n": e0})
            for k, e in enumerate(b["log"]):
                buf += enc.event(e)
                want += enc.done(e)
                if len(buf) > 60000 or rnd.random() < .2:
                    self.send(pub, buf)
                    buf = b""
            buf += enc.control(4, b"\0\x06PING")
            self.send(pub, buf)
            try:
                pub.wait(lambda m: m.type == 4 and m.data == b"\0\x07PING")
            except Closed:
                raise Mismatch("the server closed a legal chunk stream")
            except Timeout:
                raise Mismatch("a complete message was not handled")
            self.compare(ply, want)
            if acks:
                self.acks(pub, acks)
            end = b.get("end")
            if end:
                cs = next(x for x in rnd.sample(range(3, 64), 20) if x not in enc.csid.values())
                if end == "maxmsg":
                    p = b"\x2f" + bytes(MAXMSG - 1)
                    pub.out_chunk = enc.chunk
                    pub.send(AUDIO, p, ts=0, csid=cs)
                    self.sync(pub)
                    self.compare(ply, [(AUDIO, 0, p)])
                elif end == "big":
                    n = rnd.choice([MAXMSG + 1, 0xFFFFFF])
                    self.send(pub, bytes([cs]) + b"\0\0\0" + n.to_bytes(3, "big") + b"\x08\1\0\0\0" + bytes(50))
                    self.must_close(pub, "a message longer than max_message")
                elif end == "csid":
                    n = rnd.choice([LIM[i], LIM[i] + 1, min(65599, LIM[i] + 1000)]) if i else None
                    if n:
                        self.send(pub, enc.basic(0, n) + b"\0\0\0\0\0\5\x08\1\0\0\0" + bytes(5))
                        self.must_close(pub, "a chunk stream id of max_streams or more")
                self.compare(ply, [])
        finally:
            pub.close()
            ply.close()
        return len(b["log"])

    @staticmethod
    def initial(b):
        """The chunk size the behaviour starts with: read off its first chunks."""
        for e in b["log"]:
            if e["a"] == "set":
                # any size but the new one is possible; find it from a chunk before
                break
            if e["a"] == "c" and not e["fin"]:
                return e["n"]
        # not determined by the behaviour: the largest chunk seen before the first set
        m = 1
        for e in b["log"]:
            if e["a"] == "set":
                break
            if e["a"] == "c":
                m = max(m, e["n"])
        return m

    def sync(self, c):
        try:
            c.sync()
        except Closed:
            raise Mismatch("the server closed a legal connection")

    def must_close(self, c, what):
        if not c.wait_closed(5):
            raise Mismatch(what + " must end the connection")

    def acks(self, pub, window):
        """Acknowledgements: never ahead of what was sent, never a window behind."""
        a = [struct.unpack(">I", m.data)[0] for m in pub.allm if m.type == 3]
        if any(x > y for x, y in zip(a, a[1:])):
            raise Mismatch(f"acknowledged bytes go back: {a[-5:]}")
        last = a[-1] if a else 0
        if last > pub.sent or pub.sent - last >= window:
            raise Mismatch(f"{pub.sent} bytes sent, {last} acknowledged, window {window}")

    def compare(self, ply, want):
        try:
            ms = ply.sync()
        except Closed:
            raise Mismatch("the player was disconnected")
        got = [(m.type, m.ts, m.data) for m in ms if m.type in (AUDIO, VIDEO)]
        # video starts at a key frame, all of these are; audio is not held back
        if got != want:
            i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
            sh = lambda x: [(t, ts, len(p), p[:10].hex()) for t, ts, p in x[i:i + 2]]
            raise Mismatch(f"message {i} of {len(want)}: sent {sh(want)}, handed on {sh(got)} ({len(got)})")

    # ---------------------------------------------------------------- fuzz
    def fuzz(self, b, enc, pub, ply):
        """Malformed bytes: at most this connection ends."""
        rnd = random.Random(b["fuzz"])
        data = bytearray(enc.event({"a": "set", "n": self.initial(b)}))
        for e in b["log"]:
            data += enc.event(e)
            if rnd.random() < .05:      # stray protocol messages
                data += enc.control(rnd.choice([1, 2, 3, 5, 6, 4]), rnd.choice([b"", b"\0", bytes(4), b"\xff" * 4, b"\0\0\0\1", b"\x7f\xff\xff\xff", b"\0\3\0\0\0\1\0\0\0\0", b"\0\7\0\0\0\1"]))
        for _ in range(rnd.choice([1, 1, 2, 5, 20])):
            i = rnd.randrange(len(data))
            k = rnd.randrange(5)
            if k == 0:
                data[i] ^= 1 << rnd.randrange(8)
            elif k == 1:
                data[i] = rnd.choice([0, 1, 0xff, 0xc0, 0x40, 2, 0x80, 3])
            elif k == 2:
                del data[i:i + rnd.choice([1, 2, 4, 11])]
            elif k == 3:
                data[i:i] = bytes(rnd.getrandbits(8) for _ in range(rnd.choice([1, 3, 4, 12])))
            else:
                data[i:i] = data[i // 2:i // 2 + rnd.choice([1, 7, 30])]
        o1, o2 = self.conn(2), self.conn(2)
        try:
            n = "o" + str(b["fuzz"])
            o1.publish(n)
            o1.sync()
            o2.play(n)
            o2.sync()
            self.send(pub, bytes(data))
            p = b"\x12" + str(b["fuzz"]).encode()
            o1.send(VIDEO, p, ts=7)
            o1.sync()
            self.compare(o2, [(VIDEO, 7, p)])
        except Closed:
            raise Mismatch("malformed input ended another connection")
        except Timeout:
            raise Mismatch("malformed input blocked another connection")
        finally:
            o1.close()
            o2.close()
            pub.close()
        # the worker must also survive the disconnection
        x = self.conn(2)
        x.sync()
        x.close()
        return len(b["log"])


class AsanChunkRunner(ChunkRunner):
    flavor = "asan"

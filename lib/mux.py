"""Replays behaviours of spec/Mux.tla: one publisher, three players with
different chunk sizes and output settings which read at the behaviour's pace
through small socket buffers; each byte stream must decode to the messages."""
import hashlib
import json
import random
import struct
import time

import nginxd
from check import Mismatch
from rtmp import AUDIO, VIDEO, Conn, Closed, ProtocolError, Timeout

# server: (chunk size, merge_frame, play_time_fix, more)
SRV = [(4096, 32, True, ""), (16, 1, True, ""), (100, 64, False, ""), (128, 2, True, "out_cork 4;"), (1000, 3, False, ""),
       (4096, 1, True, "out_queue 512;"), (60000, 32, False, ""), (131, 64, True, "buffer 1s; out_cork 8;")]


def conf():
    s = ""
    for i, (c, m, f, x) in enumerate(SRV):
        b = [y for y in x.split(";") if y.strip().startswith("buffer")]
        x = ";".join(y for y in x.split(";") if not y.strip().startswith("buffer"))
        s += f" server {{ listen {{p{i}}}; serverid s; chunk_size {c}; play_time_fix {'on' if f else 'off'}; {x} " \
             f"application live {{ live on; merge_frame {m}; {''.join(y + ';' for y in b)} }} }}\n"
    return "worker_processes 1;\nevents { worker_connections 512; }\nrtmp {\n" + s + "}\n" + \
           "http { access_log off; server { listen {p%d}; location /pv { pv_state; } } }\n" % len(SRV)


CONSTS = dict(P="1..3", Chunk="<<1,2,3>>", Fix="<<TRUE,FALSE,TRUE>>", Merge="<<1,2,3>>", Lens="1..5", Times="0..5", Types='{"a","v"}',
              EXT=3, MaxMsgs=60, Cap=6, Gen=True)


def behaviours(num, depth, seed, procs=4):
    import tla
    return tla.simulate("Mux", CONSTS, num, depth, seed, next="GenNext", procs=procs)


class MuxRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=len(SRV) + 1, harness=True, preload={"PV_SNDBUF": "6000"})

    def close(self):
        self.ng.stop()

    def health(self):
        return self.ng.crashed() or (None if self.ng.workers() == self.ng.worker0 else "the worker was replaced")

    def conn(self, i, **kw):
        c = Conn(("127.0.0.1", self.ng.ports[i]), timeout=20, fix=SRV[i][2], **kw)
        c.connect("live")
        c.create_stream()
        if i != self.pi and c.parser.chunk != SRV[i][0]:
            raise Mismatch(f"chunk size {SRV[i][0]} is not announced")
        return c

    def run(self, b):
        seed = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        rnd = random.Random(seed)
        name = seed[:10]
        self.pi = pi = rnd.randrange(len(SRV))
        pl = rnd.sample(range(1, len(SRV)), 3)
        pub = self.conn(pi)
        players = []
        try:
            pub.set_chunk(65000)
            pub.publish(name)
            pub.sync()
            for i in pl:
                c = self.conn(i, rcvbuf=rnd.choice([4000, 16000, 60000, None]))
                c.play(name)
                c.sync()
                c.auto_pong = True
                players.append(c)
            want = []
            pings = {c: 0 for c in players}
            try:
                for e in b:
                    if e["a"] == "msg":
                        c = SRV[rnd.choice(pl)][0]
                        n = max(1, e["len"] * min(c, 60000) + rnd.choice([-1, 0, 0, 1, rnd.randrange(-c // 2, c // 2)]))
                        if rnd.random() < .1:
                            n = rnd.randrange(1, 30)
                        t = {0: rnd.choice([0, rnd.randrange(0xFFFFFF)]), 1: rnd.randrange(0xFFFFFF), 2: 0xFFFFFE, 3: 0xFFFFFF,
                             4: rnd.choice([0x1000000, rnd.randrange(0xFFFFFF, 1 << 32)]), 5: rnd.choice([0xFFFFFFFF, 0xFFFFFFFE, 0x80000000])}[e["ts"]]
                        ty = AUDIO if e["ty"] == "a" else VIDEO
                        p = (b"\x2f" if ty == AUDIO else b"\x12") + b"%05d" % len(want)
                        # extended fields in the payload would hide lost bytes: random bytes
                        p = (p + rnd.randbytes(max(0, n - len(p))))[:n]
                        want.append((ty, t, p))
                        pub.send(ty, p, ts=t)
                    else:
                        c = players[e["p"] - 1]
                        if rnd.random() < .15:
                            pings[c] += 1
                            c.send(4, b"\0\6" + struct.pack(">I", 7000 + pings[c]), csid=2)
                        for _ in range(rnd.choice([1, 1, 2, 4])):
                            if not c.read_some(0, e["n"] * rnd.choice([1, 10, 300, 2000])):
                                break
                self.sync(pub, "publisher")
                for i, c in zip(pl, players):
                    self.sync(c, f"player of server {i}")
                    self.check(i, c, want, pings[c])
            except ProtocolError as e:
                raise Mismatch(f"not a legal chunk stream: {e}")
        finally:
            pub.close()
            for c in players:
                c.close()
        return len(want) * 3

    def sync(self, c, who):
        end = time.time() + 120
        try:
            pong = c.ping_send()
            while True:
                n = c.bytes_in
                try:
                    return c.wait(lambda m: m.type == 4 and m.data == pong, 15)
                except Timeout:
                    if c.bytes_in == n or time.time() > end:
                        raise
        except Closed:
            raise Mismatch(f"the server disconnected the {who}")
        except Timeout:
            raise Mismatch(f"the {who} got no answer: its byte stream stopped or became illegible")

    @staticmethod
    def cuts(n, chunk, ts, fix):
        """Mux!Cut."""
        out, off = [], 0
        while True:
            k = min(chunk, n - off)
            out.append((0 if off == 0 else 3, ts >= 0xFFFFFF and (off == 0 or fix), k))
            off += k
            if off >= n:
                return out

    def check(self, i, c, want, pings):
        chunk, merge, fix, _ = SRV[i]
        ms = [m for m in c.allm if m.type in (AUDIO, VIDEO)]
        got = [(m.type, m.ts, m.data) for m in ms]
        if got != want:
            k = next((k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k] != want[k]), 0)
            sh = lambda x: [(t, ts, len(p), p[:8].hex()) for t, ts, p in x[k:k + 2]]
            raise Mismatch(f"server {i}: message {k} of {len(want)}: queued {sh(want)}, decoded {sh(got)} ({len(got)})")
        for m in ms:
            if m.sid != c.sid:
                raise Mismatch(f"server {i}: message stream {m.sid}")
            w = self.cuts(len(m.data), chunk, m.ts, fix)
            if m.cuts != w:
                raise Mismatch(f"server {i}: chunks of a {len(m.data)} byte message: {m.cuts[:5]}, not {w[:5]}")
        pongs = [m.data for m in c.allm if m.type == 4 and m.data[:2] == b"\0\7" and 7000 < struct.unpack(">I", m.data[2:6])[0] < 8000]
        if pongs != [b"\0\7" + struct.pack(">I", 7001 + k) for k in range(pings)]:
            raise Mismatch(f"server {i}: {pings} pings, {len(pongs)} answers")


class AsanMuxRunner(MuxRunner):
    flavor = "asan"

"""Replays spec/Zone.tla on the shared stream table: one operation after the
other on behalf of any process slot, and concurrently in real workers (those
histories are checked against spec/ZoneTrace.tla)."""
import random
import socket
import threading
import time

import nginxd
import tla
from check import Mismatch

CONF = ("worker_processes %d;\nstream_zone buckets=%d streams=%d;\nevents { worker_connections 64; multi_listen unix:{dir}/w {p0}; dynamic_refresh_interval 0; }\n"
        "http { access_log off; client_max_body_size 64m; client_body_buffer_size 16m;\n"
        " server { listen {p0}; location /u { pv_unit; } } }\n")


def post(addr, lines):
    body = ("\n".join(lines) + "\n").encode("latin1")
    if isinstance(addr, str):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(60)
        s.connect(addr)
    else:
        s = socket.create_connection(("127.0.0.1", addr), timeout=60)
    s.sendall(b"POST /u HTTP/1.1\r\nHost: h\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
    b = b""
    while True:
        try:
            x = s.recv(1 << 20)
        except OSError:
            x = b""
        if not x:
            break
        b += x
    s.close()
    st, _, out = nginxd.parse_http(b)
    if st != 200:
        raise Mismatch(f"script answered {st}")
    r = out.decode("latin1").splitlines()
    if len(r) != len(lines):
        raise Mismatch(f"{len(r)} answers for {len(lines)} operations")
    return r


def names(rnd, n):
    """n different names; many share a hash."""
    s = set()
    kind = rnd.randrange(4)
    while len(s) < n:
        if kind == 0:
            x = "".join(rnd.choice(["Aa", "BB"]) for _ in range(9))
        elif kind == 1:
            x = "a" * rnd.choice([0, 1, 2, 3, 1022, 1023, 1000, 500, 501, 502] + list(range(10, 200)))
        elif kind == 2:
            x = "app/" + rnd.choice(["Aa", "BB", "x"]) + str(rnd.randrange(3 * n)) + "y" * rnd.randrange(3)
        else:
            x = "".join(chr(rnd.randrange(33, 127)) for _ in range(rnd.randrange(1, 60)))
        s.add(x or "_")
    s = sorted(s)
    rnd.shuffle(s)
    return s


class _Base:
    flavor = "plain"

    def __init__(self):
        self.ng, self.key = None, None

    def open(self, key):
        if self.key != key:
            if self.ng:
                self.ng.stop()
            self.ng = nginxd.Nginx(CONF % key, flavor=self.flavor, nports=1, harness=True, level="error")
            self.key = key

    def close(self):
        if self.ng:
            self.ng.stop()

    def health(self):
        if not self.ng:
            return None
        c = self.ng.crashed()
        if c:
            return c
        return None if self.ng.workers() == self.ng.worker0 else "a worker was replaced"


class ZoneRunner(_Base):
    def run(self, b):
        rnd = random.Random(repr(b)[:20000])
        nb, cap = b["conf"]
        self.open((1, nb, cap))
        ns = names(rnd, b["names"])
        slots = sorted({e["s"] for e in b["log"]})
        script = [f"z s {s}" for s in slots]
        n0 = len(script)
        exp = []
        for e in b["log"]:
            if rnd.random() < .02:
                script.append(f"z i {e['s']} " + "L" * rnd.choice([1024, 1025, 2000]))   # too long: refused
                exp.append((-1, exp[-1][1] if exp else 0))
                script.append(f"z d {e['s']} " + "L" * 1024)
                exp.append((0, exp[-1][1]))
            script.append(f"z {e['a']} {e['s']}" + (f" {ns[e['n'] - 1]}" if e["n"] else ""))
            exp.append((e["res"], e["alloc"]))
        out = post(self.ng.ports[0], script)
        for i, (l, (res, alloc)) in enumerate(zip(out[n0:], exp)):
            t = l.split()
            w = f"buckets={nb} streams={cap}, operation {i} ({script[n0 + i][:60]})"
            if t[0] != str(res):
                raise Mismatch(f"{w}: answered {t[0]} instead of {res}")
            if t[3:5] != [str(nb), str(cap)] or t[5] != str(alloc):
                raise Mismatch(f"{w}: state {t[3:]} instead of {alloc} names in use")
        return len(exp)


class AsanZoneRunner(ZoneRunner):
    flavor = "asan"


class ConcRunner(_Base):
    W = 4

    def run(self, b):
        rnd = random.Random(repr(b)[:20000])
        nb, cap = b["conf"]
        self.open((self.W, nb, cap))
        addr = [f"{self.ng.dir}/w.{i}" for i in range(self.W)]
        end = time.time() + 10
        while True:
            try:
                slot = [int(post(a, ["z w 0"])[0].split()[1]) for a in addr]
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(.05)
        if len(set(slot)) != self.W:
            raise Mismatch(f"workers of slots {slot}")
        hists = []
        for log in b["logs"]:
            ns = names(rnd, b["names"])
            t = time.clock_gettime_ns(time.CLOCK_MONOTONIC) + 8_000_000
            res = [None] * self.W
            plan = []
            for w in range(self.W):
                ops = [e for e in log if e["s"] == w and e["n"]]
                script = [f"z w {t}"]
                for e in ops:
                    if rnd.random() < .4:
                        script.append(f"z n {rnd.choice([100, 300, 1000, 3000])}")
                    script.append(f"z {e['a'].upper()} -1 {ns[e['n'] - 1]}")
                plan.append((ops, script))

            def go(w):
                try:
                    res[w] = post(addr[w], plan[w][1])
                except Exception as e:
                    res[w] = e
            th = [threading.Thread(target=go, args=(w,)) for w in range(self.W)]
            [x.start() for x in th]
            [x.join() for x in th]
            ops = []
            for w in range(self.W):
                if isinstance(res[w], Exception):
                    raise Mismatch(f"worker {w}: {res[w]!r}")
                ls = [l for l, s in zip(res[w], plan[w][1]) if s[2] in "ID"]
                for e, l in zip(plan[w][0], ls):
                    r, t0, t1 = map(int, l.split())
                    ops.append({"s": slot[w], "a": e["a"], "n": e["n"], "res": r, "t0": t0, "t1": t1})
            ops.sort(key=lambda o: o["t0"])
            # only the immediate predecessors matter
            for o in ops:
                pre = [j + 1 for j, p in enumerate(ops) if p["t1"] < o["t0"]]
                o["pre"] = pre
            alloc = int(post(addr[0], ["z q 0"])[0].split()[5])
            for a in addr:
                left = int(post(a, ["z s -1"])[0].split()[5])
            if left:
                raise Mismatch(f"{left} names in use after every process gave its own back")
            hists.append({"ops": ops, "alloc": alloc})
            self.overlap = sum(1 for i, o in enumerate(ops) for p in ops[:i] if p["t1"] >= o["t0"])
        ok, r = tla.accept_all("ZoneTrace", dict(NNames=b["names"], NSlots=self.W, Cap=cap), hists, workers=2)
        for i, hst in enumerate(hists):
            if i not in ok:
                raise Mismatch(f"buckets={nb} streams={cap}: no order of these concurrent operations explains their answers: "
                               + "; ".join(f"{o['s']}{o['a']}{o['n']}={o['res']}@{o['t0'] % 10**9}-{o['t1'] % 10**9}" for o in hst["ops"]) + f"; in use {hst['alloc']}")
        return sum(len(h["ops"]) for h in hists)

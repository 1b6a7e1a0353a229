"""Replays behaviours of spec/Map.tla, Pools.tla and Timers.tla inside a
worker: the script goes to the pv_unit location of the harness module, which
performs every operation on the real containers and pools and reports."""
import random

import nginxd
from check import Mismatch

CONF = ("worker_processes 1;\nevents { worker_connections 64; worker_timers %d; dynamic_refresh_interval 0; }\nrtmp { server { listen {p1}; serverid s; application a { live on; } } }\n"
        "http { access_log off; client_max_body_size 64m; client_body_buffer_size 16m;\n"
        " server { listen {p0}; location /u { pv_unit; } } }\n")


def hash31(b):
    h = 0
    for c in b:
        h = (h * 31 + c) & (2 ** 64 - 1)
    return h


class UnitRunner:
    flavor = "plain"
    slots = 4

    def __init__(self):
        self.ng = nginxd.Nginx(CONF % self.slots, flavor=self.flavor, nports=2, harness=True, level="emerg")
        self.n = 0
        self.size = 100

    def close(self):
        self.ng.stop()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        return None if self.ng.workers() == self.ng.worker0 else "the worker was replaced"

    def post(self, lines):
        import socket
        body = ("\n".join(lines) + "\n").encode("latin1")
        s = socket.create_connection(("127.0.0.1", self.ng.ports[0]), timeout=60)
        s.sendall(b"POST /u HTTP/1.1\r\nHost: h\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
        b = b""
        while True:
            try:
                x = s.recv(1 << 20)
            except OSError:
                x = b""
            if not x:
                break
            b += x
        s.close()
        st, _, out = nginxd.parse_http(b)
        if st != 200:
            raise Mismatch(f"script answered {st}; " + (self.ng.crashed() or ""))
        r = out.decode("latin1").splitlines()
        if len(r) != len(lines):
            raise Mismatch(f"{len(r)} answers for {len(lines)} operations")
        return r

    def run(self, b):
        self.rnd = random.Random(repr(b)[:20000])
        return getattr(self, "run_" + b["kind"])(b["log"], b)

    # ---------------------------------------------------------------- map
    def keys(self, typ, k):
        rnd = self.rnd
        if typ == "u":
            pool = set(rnd.randrange(2 ** 64) for _ in range(2 * k)) | {0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 32, 2 ** 31}
            ks = sorted(rnd.sample(sorted(pool), k))
        elif typ == "i":
            pool = set(rnd.randrange(-2 ** 63, 2 ** 63) for _ in range(2 * k)) | {0, 1, -1, 2 ** 63 - 1, -2 ** 63}
            ks = sorted(rnd.sample(sorted(pool), k))
        elif typ == "w":
            ks = sorted(rnd.sample(range(1000), k), key=lambda x: (x % 3, x))
        else:
            pool = {"_", "a", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "AaAaAa", "BBBBBB", "AaBBAa", "stream", "stream1", "strea"}
            pool |= {"".join(rnd.choice(["Aa", "BB", "C#"]) for _ in range(4)) for _ in range(2 * k)}
            ks = rnd.sample(sorted(pool), min(k, len(pool)))
            enc = lambda x: b"" if x == "_" else x.encode()
            ks.sort(key=lambda x: (hash31(enc(x)), enc(x)))
        return ks

    def run_map(self, log, b):
        k = b["K"]
        typ = self.rnd.choice("uisw")
        ks = self.keys(typ, k)
        script = [f"m i {typ} " + " ".join(str(x) for x in ks)]
        exp = [(0, [], [0] * k)]
        for e in log:
            script.append(f"m p {e['n']} {e['k'] - 1} {e['c']}" if e["a"] == "i" else f"m d {e['k'] - 1}")
            f = e["find"]
            exp.append((e, e["fwd"], [f[str(i)] for i in range(1, k + 1)] if isinstance(f, dict) else f))
        for i, (l, (e, fwd, find)) in enumerate(zip(self.post(script), exp)):
            want = f"E{int(not fwd)} F" + "".join(f" {x}" for x in fwd) + " B" + "".join(f" {x}" for x in reversed(fwd)) + \
                   " f" + "".join(f" {x or -1}" for x in find)
            if l != want:
                raise Mismatch(f"map of {typ} keys {ks}, operation {i} ({script[i]}): expected '{want}' but got '{l}'")
        return len(log)

    # -------------------------------------------------------------- pools
    def run_pools(self, log, b):
        sizes = {}
        script = ["r n 0", "p n 0"]
        for e in log:
            if e["a"] == "get":
                z = e["z"]
                if z and z not in sizes:
                    self.size += self.rnd.choice([1, 3, 64])
                    sizes[z] = self.size
                script.append(f"r g {e['s']} {sizes.get(z, 0)} {int(z > 0)}")
            else:
                script.append({"put": "r p %d", "twice": "r t %d", "create": "p c %d", "destroy": "p d %d", "dtwice": "p d %d twice"}[e["a"]] % e["s"])
        # everything goes back at the end
        held, pool = {}, set()
        for e in log:
            if e["a"] == "get":
                held[e["s"]] = 1
            elif e["a"] in ("put", "twice"):
                held.pop(e["s"])
            elif e["a"] == "create":
                pool.add(e["s"])
            else:
                pool.discard(e["s"])
        n = len(script)
        script += [f"r p {s}" for s in held] + [f"p d {s}" for s in pool]
        out = self.post(script)
        node0, nb0, fb0, nc0, fc0 = map(int, out[0].split()[1:])
        np0, fp0 = map(int, out[1].split()[1:])
        rb = [nb0, fb0, nc0, fc0]
        for i, (l, e) in enumerate(zip(out[2:n], log)):
            w = f"operation {i} ({script[i + 2]})"
            t = l.split()
            err = l.split("  ")[0]
            nums = [int(x) for x in t if x.lstrip("-").isdigit()]
            if not l.startswith("ok "):
                raise Mismatch(f"{w}: {l}")
            if script[i + 2][0] == "r":
                node, nb, fb, nc, fc = nums
                if nc - fc != nc0 - fc0 + e["links"]:
                    raise Mismatch(f"{w}: {nc - fc - nc0 + fc0} chain links counted as held instead of {e['links']}")
                if nb - fb != nb0 - fb0 + e["bufs"]:
                    raise Mismatch(f"{w}: {nb - fb - nb0 + fb0} buffers counted as held instead of {e['bufs']}")
                if nc > max(nc0, nc0 - fc0 + e["hwc"]):
                    raise Mismatch(f"{w}: {nc} chain links were allocated although only {e['hwc']} were ever held at once")
                if nb > nb0 + e["hwb"]:
                    raise Mismatch(f"{w}: {nb - nb0} buffers were allocated although {e['hwb']} suffice")
                if node - node0 != e["nodes"]:
                    raise Mismatch(f"{w}: {node - node0} buffer sizes instead of {e['nodes']}")
            else:
                np_, fp = nums
                if np_ - fp != np0 - fp0 + e["pools"]:
                    raise Mismatch(f"{w}: {np_ - fp - np0 + fp0} pools counted as held instead of {e['pools']}")
                if np_ > max(np0, np0 - fp0 + e["hwp"]):
                    raise Mismatch(f"{w}: {np_} pool nodes were allocated although only {e['hwp']} were ever held at once")
        for l, s in zip(out[n:], script[n:]):
            if not l.startswith("ok "):
                raise Mismatch(f"at the end ({s}): {l}")
        return len(log)

    # ------------------------------------------------------------- timers
    def run_timers(self, log, b):
        script = ["t i"]
        live = set()
        elive = {}
        for e in log:
            i, t, c = e["i"], e["t"], e["c"]
            script.append({"arm": f"t a {i} {t} {c['a']} {c['t']} {c['j']}", "foreign": self.rnd.choice([f"t w {i} {t}", f"t x {i}"]),
                           "del": f"t d {i}", "eadd": f"t E {i} {t} {c['j'] or -1}", "edel": f"t D {i}", "edtwice": f"t D {i} 2", "tick": f"t k {t}"}[e["a"]])
        n = len(script)
        script += [f"t d {i}" for i in b["Ts"]] + ["t k 1000000"]
        out = self.post(script)

        def nums(l):
            return list(map(int, l.split(" set")[1].split()[1:]))
        na0, nf0, al0, fr0 = nums(out[0])
        hw = 0
        for k, (l, e) in enumerate(zip(out[1:n], log)):
            w = f"operation {k} ({script[k + 1]})"
            head, tail = l.split(" set")
            bits = tail.split()[0]
            got = {i for i in range(8) if bits[i] == "1"}
            na, nf, al, fr = nums(l)
            hw = max(hw, len(e["set"]))
            if e["a"] == "tick":
                f = head.split()[1:]
                want = [f"e{x - 100}" if x > 100 else str(x) for x in e["fired"]]
                if f != want:
                    raise Mismatch(f"{w}: fired {f} instead of {want}")
            if e["a"] == "eadd" and head.split()[0] != e["err"]:
                raise Mismatch(f"{w}: answered {head} instead of {e['err']}")
            if got != set(e["set"]):
                raise Mismatch(f"{w}: timers {sorted(got)} are set instead of {sorted(e['set'])}")
            if na - nf != na0 - nf0 + len(e["set"]):
                raise Mismatch(f"{w}: {na - nf - na0 + nf0} timer nodes counted as used instead of {len(e['set'])}")
            if na > max(na0, na0 - nf0 + hw + 1):
                raise Mismatch(f"{w}: {na} timer nodes were allocated although at most {hw} were in use at once")
            if (al, fr) != (self.slots, e["free"]):
                raise Mismatch(f"{w}: event timer slots {al}/{fr} instead of {self.slots}/{e['free']}; at first {al0}/{fr0}")
        return len(log)


class AsanUnitRunner(UnitRunner):
    flavor = "asan"

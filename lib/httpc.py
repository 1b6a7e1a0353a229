"""Replays behaviours of spec/HttpClient.tla: the built-in HTTP client (driven
through the harness location /hc) against servers which send what, when and
in the pieces the behaviour says."""
import hashlib
import json
import random
import re
import select
import socket
import struct
import time
from urllib.parse import quote

import nginxd
from check import Mismatch

IDLE = 2
EMPTY = (204, 304)


def conf():
    return ("worker_processes 1;\nheader_timeout 60s;\nheader_buffer_size 1k;\nbody_buffer_size 700;\nmax_idle_client %d;\nkeepalive 60s;\n"
            "events { worker_connections 256; }\nhttp {\n access_log off;\n server { listen {p0}; keepalive_requests 1000000; location /hc { pv_hc; } location /pv { pv_state; } }\n}\n" % IDLE)


def listener(port, backlog=64):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(("127.0.0.1", port))
    s.listen(backlog)
    return s


class HttpcRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=5, harness=True, level="error")
        self.ups = {1: listener(self.ng.ports[1]), 2: listener(self.ng.ports[2])}
        self.dead = self.ng.ports[3]
        self.full = listener(self.ng.ports[4], 0)
        self.fill = []
        for _ in range(4):
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex(("127.0.0.1", self.ng.ports[4]))
            self.fill.append(s)
        self.web = None
        self.base = None

    def close(self):
        self.ng.stop()
        for s in list(self.ups.values()) + self.fill + [self.full]:
            s.close()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return f"the worker was replaced: {self.ng.worker0} -> {self.ng.workers()}"

    def get(self, **kw):
        q = "/hc?" + "&".join(f"{k}={quote(str(v), safe='')}" for k, v in kw.items())
        for _ in range(2):
            try:
                if self.web is None:
                    self.web = socket.create_connection(("127.0.0.1", self.ng.ports[0]), timeout=5)
                    self.buf = b""
                self.web.sendall(f"GET {q} HTTP/1.1\r\nHost: x\r\n\r\n".encode())
                while b"\r\n\r\n" not in self.buf:
                    x = self.web.recv(1 << 20)
                    if not x:
                        raise OSError("closed")
                    self.buf += x
                head, self.buf = self.buf.split(b"\r\n\r\n", 1)
                n = int(re.search(rb"Content-Length: (\d+)", head).group(1))
                while len(self.buf) < n:
                    x = self.web.recv(1 << 20)
                    if not x:
                        raise OSError("closed")
                    self.buf += x
                body, self.buf = self.buf[:n], self.buf[n:]
                return body
            except OSError as e:
                self.web = None
                err = e
        raise Mismatch(f"{self.where}: the worker does not answer: {err}")

    def counters(self):
        t = nginxd.http_get(self.ng.ports[0], "/pv")[2].decode()
        v = {k: int(n) for k, n in (l.rsplit(": ", 1) for l in t.splitlines() if ": " in l)}
        return {"bufs": v["ngx_rbuf nalloc buf"] - v["ngx_rbuf nfree buf"], "chains": v["ngx_rbuf nalloc chain"] - v["ngx_rbuf nfree chain"],
                "pools": v["ngx_poold nalloc node"] - v["ngx_poold nfree node"], "timers": v["ngx_timerd nalloc node"] - v["ngx_timerd nfree node"]}

    # ------------------------------------------------------------------
    def run(self, b):
        log = b["log"]
        h = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        self.rnd = random.Random(h)
        self.where = "start"
        self.conns = {}         # connection -> its socket at the server
        self.req = {}           # slot -> what was asked and answered
        self.idle_up = {}
        try:
            for i, e in enumerate(log, 1):
                self.where = f"step {i} {e['a']} {e.get('r', '')}"
                getattr(self, "do_" + e["a"])(e, i)
                self.settle(e)
        finally:
            for s in self.conns.values():
                s.close()
            for u in self.ups.values():
                while select.select([u], [], [], 0)[0]:
                    u.accept()[0].close()
        self.where = "end"
        want = None
        end = time.time() + 5
        while True:
            idle = self.idle()
            held = [r for r, q in self.req.items() if not self.info(r)["over"]]
            if idle == 0 and not held:
                break
            if time.time() > end:
                raise Mismatch(f"after all servers are gone: {idle} idle connections, unanswered requests {held}")
            time.sleep(.005)
        for r, q in self.req.items():
            if self.info(r)["after"]:
                raise Mismatch(f"request {r} was called again after its end")
        time.sleep(.01)
        now = self.counters()
        if self.base is None:
            self.base = now
        while now != self.base:
            if time.time() > end:
                raise Mismatch(f"objects in use when nothing is left: {now}, before {self.base}")
            time.sleep(.02)
            now = self.counters()
        return len(log)

    def idle(self):
        return int(re.search(rb"idle connection: (\d+)", self.get(op="pool")).group(1))

    def info(self, r):
        t = self.get(op="get", id=r)
        head, rest = t.split(b"\n", 1)
        d = {k: int(v) for k, v in (x.split("=") for x in head.decode().split())}
        heads, body = rest.split(b"\n\n", 1) if d["hdr"] else (b"", rest[1:])
        d["heads"], d["body"] = heads, body
        d["over"] = d["ends"] or d["cleanups"] or self.req[r].get("quit")
        return d

    # ------------------------------------------------------------------
    def do_start(self, e, i):
        r, u, sh = e["r"], e["up"], e["sh"]
        rnd = self.rnd
        m = "HEAD" if sh["head"] else rnd.choice(["GET", "GET", "POST", "DELETE"])
        path = f"p{i}" + rnd.choice(["", "/a/b", "?x=1&y=2", "/q?z=/"])
        hs = [("X-Step", str(i))]
        if rnd.random() < .3:
            hs.append(("User-Agent", "pv"))
        if rnd.random() < .3:
            hs.append(("Date", ""))
        if rnd.random() < .2:
            hs += [(f"X-{k}", "v" * k) for k in range(1, 9)]
        if rnd.random() < .2:
            hs += [("X-Two", "one"), ("X-Two", "two")]
        q = self.req[r] = {"sh": sh, "pos": 0, "conn": e["conn"], "sent": b"", "bounds": [0]}
        self.prepare(q)
        kw = {"t": 200} if e["short"] else {}
        ok = self.get(op="start", id=r, u=f"http://127.0.0.1:{self.ng.ports[u]}/{path}", h=",".join(f"{k}:{v}" for k, v in hs), w=",".join(q["ask"]),
                      m={"GET": 0, "HEAD": 1, "POST": 2, "DELETE": 4}[m], **kw)
        if ok != b"ok\n":
            raise Mismatch(f"{self.where}: the request could not be started")
        s = self.conns.get(e["conn"])
        if s is None:
            if not select.select([self.ups[u]], [], [], 5)[0]:
                raise Mismatch(f"{self.where}: no new connection to server {u}")
            s = self.conns[e["conn"]] = self.ups[u].accept()[0]
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(5)
        raw = b""
        try:
            while b"\r\n\r\n" not in raw:
                x = s.recv(65536)
                if not x:
                    raise Mismatch(f"{self.where}: connection {e['conn']} was closed instead of used")
                raw += x
        except OSError as x:
            raise Mismatch(f"{self.where}: no request on connection {e['conn']}: {x}")
        head, rest = raw.split(b"\r\n\r\n", 1)
        lines = head.decode("latin1").split("\r\n")
        if rest or lines[0] != f"{m} /{path} HTTP/1.1":
            raise Mismatch(f"{self.where}: the server got {raw[:200]}, asked was {m} /{path}")
        got = [tuple(x.split(": ", 1)) for x in lines[1:]]
        want = {}
        for k, v in hs:
            want[k] = v
        for k, v in want.items():
            if [b for a, b in got if a == k] != ([v] if v else []):
                raise Mismatch(f"{self.where}: header {k} should be {v!r}, the server got {got}")
        for k in ("Host", "User-Agent", "Accept", "Date"):
            if k not in want and len([1 for a, b in got if a == k]) != 1:
                raise Mismatch(f"{self.where}: header {k} is missing or doubled: {got}")

    def prepare(self, q):
        """The bytes of every token of the response."""
        rnd, sh = self.rnd, q["sh"]
        empty = sh["head"] or sh["status"] in EMPTY
        size = lambda: rnd.choice([1, 1, 2, 5, 16, 255, 256, 699, 700, 701, 1400, 3000])
        units = [bytes(rnd.getrandbits(8) for _ in range(size())) for _ in range(sh["n"])]
        q["units"] = units
        st = f"HTTP/1.{sh['v'] - 10} {sh['status']}" + rnd.choice([" OK", " Not so good", " "])
        hs = []
        if sh["conn"] != "none":
            hs.append((rnd.choice(["Connection", "connection", "CONNECTION"]), {"close": rnd.choice(["close", "Close"]), "keep": rnd.choice(["keep-alive", "Keep-Alive"])}[sh["conn"]]))
        if sh["delim"] == "len":
            n = sum(map(len, units)) if not empty else rnd.choice([0, 0, 77])
            if sh["status"] != 204 or n or rnd.random() < .5:
                hs.append((rnd.choice(["Content-Length", "content-length"]), str(n)))
        elif sh["delim"] == "chunked":
            hs.append(("Transfer-Encoding", rnd.choice(["chunked", "Chunked"])))
        q["ask"] = ["X-None"]
        q["want"] = {"X-None": None}
        for k in range(rnd.choice([0, 1, 2, 3, 25])):
            v = rnd.choice(["", "v", "a, b", "x" * rnd.randrange(1, 9), "a:b"])
            hs.append((f"X-H{k}", v))
            if rnd.random() < .5 and len(q["ask"]) < 8:
                a = rnd.choice([f"X-H{k}", f"x-h{k}"])
                q["ask"].append(a)
                q["want"][a] = v
        if rnd.random() < .2:
            hs += [("X-Dup", "1"), ("X-Dup", "2")]
            q["ask"].append("x-dup")
            q["want"]["x-dup"] = "1"
        if rnd.random() < .3:
            hs.append(("ETag", '"e"'))
            q["ask"].append("Etag")
            q["want"]["Etag"] = '"e"'
        rnd.shuffle(hs)
        if "x-dup" in q["want"]:
            q["want"]["x-dup"] = [v for k, v in hs if k == "X-Dup"][0]
        bad = sh["bad"]
        raw = "".join(f"{k}:{rnd.choice([' ', ' ', '', '  '])}{v}\r\n" for k, v in hs).encode()
        if bad in ("header", "length", "big"):
            i = rnd.randrange(0, len(hs) + 1)
            part = "".join(f"{k}: {v}\r\n" for k, v in hs[:i]).encode()
            raw = {"header": part + rnd.choice([b"bad\0: x\r\n", b"X: a\0b\r\n", b"\x01: 1\r\n"]),
                   "length": part + rnd.choice([b"Content-Length: x\r\n", b"Content-Length: -1\r\n", b"Content-Length: 1\r\nContent-Length: 1\r\n", b"Content-Length: 99999999999999999999\r\n"]),
                   "big": part + b"X-Big: " + b"y" * 1100 + b"\r\n"}[bad]
        toks = []
        hexn = lambda n: (rnd.choice(["%x", "%X", "0%x"]) % n + rnd.choice(["", "", "", ";a=b"])).encode() + b"\r\n"
        for t in tokens(sh):
            if t == "S":
                toks.append(st.encode() + b"\r\n")
            elif t == "H":
                toks.append(raw)
            elif t == "E":
                toks.append(b"\r\n")
            elif t == "c":
                u = units[q.setdefault("ci", 0)]
                toks.append((b"\r\n" if q["ci"] else b"") + hexn(len(u)))
                q["ci"] += 1
            elif t == "b":
                k = q.setdefault("bi", 0)
                toks.append(units[k])
                q["bi"] += 1
            elif t == "z":
                toks.append((b"\r\n" if q.get("ci") else b"") + rnd.choice([b"0\r\n\r\n", b"0\r\n\r\n", b"00\r\n\r\n", b"0;x\r\n\r\n", b"0\r\nT: 1\r\n\r\n"]))
            elif t == "x":
                toks.append(rnd.choice([b"x", b"\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", b"z" * 900]))
            elif t == "!":
                if bad == "status":
                    toks.append(rnd.choice([b"gibberish\r\n\r\n", b"HTTP/x.1 200 OK\r\n", b"HTTP/1.1 2x0 OK\r\n", b"\r\n\r\n", b"XHTTP/1.1 200 OK\r\n\r\n"]))
                elif bad == "chunk":
                    toks.append(rnd.choice([b"\r\nzz\r\n", b"x\r\n", b"\r\n\r\n5\r\n", b"\r\n-1\r\n"]))
                else:
                    toks.append(st.encode() + b"\r\n" + raw)
        if bad in ("header", "length", "big"):
            toks = [toks[0], toks[1][toks[1].index(b"\r\n") + 2:]] if len(toks) > 1 else toks
        q["toks"] = toks

    def write(self, s, data, fin=""):
        """In random pieces."""
        rnd = self.rnd
        try:
            how = rnd.random()
            cuts = []
            if how < .4 and len(data) > 1:
                cuts = sorted(rnd.randrange(1, len(data)) for _ in range(rnd.randrange(1, 4)))
            elif how < .5:
                cuts = list(range(1, min(len(data), 40)))
            k = 0
            for c in cuts + [len(data)]:
                if data[k:c]:
                    s.sendall(data[k:c])
                    if c < len(data):
                        time.sleep(rnd.choice([0, .001, .003]))
                k = c
            if fin == "fin":
                if data and rnd.random() < .4:
                    time.sleep(.003)
                s.shutdown(socket.SHUT_WR)
        except OSError:
            pass        # the client may close a malformed or complete response

    def do_reply(self, e, i):
        q = self.req[e["r"]]
        t = q["toks"]
        data = b"".join(t[q["pos"]:q["pos"] + e["k"]])
        q["pos"] += e["k"]
        q["part"] = 0
        if e["fin"] and q["pos"] < len(t) and self.rnd.random() < .5:
            nxt = tokens(q["sh"])[q["pos"]]
            if len(t[q["pos"]]) > 1 and nxt in "SHbcz":
                half = self.rnd.randrange(1, len(t[q["pos"]]))
                if nxt == "z":
                    half = min(half, 2)
                data += t[q["pos"]][:half]
                if nxt == "b":
                    q["part"] = half
        q["fin"] = e["fin"]
        self.write(self.conns[q["conn"]], data, e["fin"])

    def do_reset(self, e, i):
        self.rst(self.conns[self.req[e["r"]]["conn"]])

    def rst(self, s):
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()

    def do_stall(self, e, i):
        pass

    def do_abort(self, e, i):
        self.req[e["r"]]["quit"] = True
        self.get(op="abort", id=e["r"])

    def do_detach(self, e, i):
        self.req[e["r"]]["quit"] = True
        self.get(op="detach", id=e["r"])

    def do_idled(self, e, i):
        s = self.conns[e["conn"]]
        if e["how"] == "close":
            s.shutdown(socket.SHUT_WR)
        elif e["how"] == "junk":
            s.sendall(self.rnd.choice([b"x", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"]))
        else:
            self.rst(s)

    def do_refused(self, e, i):
        self.req[e["r"]] = {"sh": None, "want": {}, "pos": 0, "conn": 0}
        port = self.dead if e["how"] == "refused" else self.ng.ports[4]
        self.get(op="start", id=e["r"], u=f"http://127.0.0.1:{port}/x", h="", w="", m=0, c=150)

    # ------------------------------------------------------------------
    def body(self, q, n, partial=True):
        return b"".join(q["units"][:n]) + (q["units"][n][:q["part"]] if partial and q.get("part") else b"")

    def matches(self, r, want):
        q = self.req[r]
        d = self.info(r)
        end = want["end"]
        if d["after"]:
            return f"request {r} was called again after its end"
        ends, cl, rc = {"": (0, 0, 0), "done": (1, 1, -4), "closed": (1, 1, 0), "error": (1, 1, -1), "fail": (0, 1, 0), "abort": (0, 1, 0), "detach": (0, 0, 0)}[end]
        if (d["hdr"], d["ends"], d["cleanups"]) != (int(want["hdr"]), ends, cl) or (ends and d["rc"] != rc):
            return f"request {r} has { {k: d[k] for k in ('hdr', 'ends', 'cleanups', 'rc')} }, specified {want}"
        if want["hdr"]:
            sh = q["sh"]
            if (d["status"], d["version"]) != (sh["status"], 1000 + sh["v"] - 10):
                return f"request {r} has status {d['status']} version {d['version']}, sent {sh['status']} {sh['v']}"
            got = dict((x.split("=", 1) if "=" in x else (x, None)) for x in d["heads"].decode("latin1").split("\n") if x)
            if got != q["want"]:
                return f"request {r} has headers {got}, sent {q['want']}"
            b = self.body(q, want["body"], end == "closed")
            if d["body"] != b and not (end == "error" and q["sh"]["bad"] == "chunk" and b.startswith(d["body"])):
                k = next((k for k in range(min(len(b), len(d["body"]))) if b[k] != d["body"][k]), min(len(b), len(d["body"])))
                return f"request {r} has {len(d['body'])} bytes of body, sent {len(b)}, different from byte {k}"

    def settle(self, e):
        limit = time.time() + 5
        while True:
            bad = None
            for r, want in enumerate(e["res"], 1):
                if want["end"] != "idle":
                    bad = bad or self.matches(r, want)
            n = self.idle()
            if n != e["idle"]:
                bad = bad or f"{n} idle connections, specified {e['idle']}"
            bad = bad or self.sockets(set(e["open"]))
            if not bad:
                return
            if time.time() > limit:
                raise Mismatch(f"{self.where}: {bad}")
            time.sleep(.003)

    def sockets(self, opn):
        for c, s in list(self.conns.items()):
            if s.fileno() < 0:
                del self.conns[c]
                continue
            s.setblocking(False)
            try:
                x = s.recv(4096)
                shut = not x
                if x:
                    return f"connection {c} got {x[:80]}"
            except BlockingIOError:
                shut = False
            except OSError:
                shut = True
            s.setblocking(True)
            if c in opn and shut:
                return f"connection {c} was closed"
            if c not in opn:
                if not shut:
                    return f"connection {c} is still open"
                s.close()
                del self.conns[c]
        if opn - set(self.conns):
            return f"connections {opn - set(self.conns)} are gone"
        for u, s in self.ups.items():
            if select.select([s], [], [], 0)[0]:
                return f"server {u} got another connection"


def tokens(sh):
    if sh["bad"] == "status":
        return ["!"]
    if sh["bad"] in ("header", "length", "big"):
        return ["S", "!"]
    t = ["S", "H", "E"]
    if not (sh["head"] or sh["status"] in EMPTY):
        if sh["delim"] == "chunked":
            t += ["c", "b"] * sh["n"] + (["!"] if sh["bad"] == "chunk" else ["z"])
        else:
            t += ["b"] * sh["n"]
    return t + (["x"] if sh["extra"] else [])


class AsanHttpcRunner(HttpcRunner):
    flavor = "asan"

"""Replays behaviours of spec/Cluster.tla: requests sent to the addresses of
workers, relayed between them and broadcast, while workers end, are respawned
and replaced."""
import json
import os
import random
import signal
import socket
import threading
import time

import nginxd
import tla
from check import Mismatch

KINDS = ("unix", "inet", "inet6")
CONF = """worker_processes %d;
events { worker_connections 512; multi_listen {p4} {p0}; multi_listen unix:{dir}/w {p0}; multi_listen 127.0.0.1:{pI} {p0}; multi_listen [::1]:{pJ} [::1]:{p1}; }
http { access_log off; keepalive_timeout 20s; client_body_buffer_size 8k; client_max_body_size 4m;
  proxy_set_header Host $http_host; proxy_set_header Pv-Relayed 1;
  server { listen {p0}; listen [::1]:{p1};
    location /who { pv_who; }
    location /to/unix/ { inner_proxy unix:{dir}/w /inner; pv_to; }
    location /to/inet/ { inner_proxy 127.0.0.1:{pI} /inner; pv_to; }
    location /to/inet6/ { inner_proxy [::1]:{pJ} /inner; pv_to; }
    location /inner/ { rewrite "^/inner/([^u][^/]*):/(/.*)$" $2 break; proxy_pass http://$1; }
    location /inner/unix: { rewrite "^/inner/(unix:[^:]*):/(/.*)$" $2 break; proxy_pass http://$1:; }
    location /all/unix { broadcast unix:{dir}/w /proxy; return 200; }
    location /all/inet { broadcast 127.0.0.1:{pI} /proxy; return 200 "replaced"; }
    location /all/inet6 { broadcast [::1]:{pJ} /proxy; return 404; }
    location /list { broadcast unix:{dir}/w /proxy; broadcast_rewrite_prefix "," [; broadcast_suffix ]; return 200; }
    location /proxy/ { rewrite ^/proxy/(.*) /who break; proxy_pass http://$1; }
    location /proxy/unix: { rewrite ^/proxy/(.*) /who break; proxy_pass http://$1:; }
} }
"""


def behaviours(num, seed, depth=45, n=3):
    logs = tla.simulate("Cluster", dict(Workers=f"0..{n - 1}", Slots=f"0..{max(6, n + 1) - 1}", MaxProc=24 if n == 3 else 60, MaxOps=depth, Gen=True),
                        num, depth + 10, seed, next="GenNext", procs=4, timeout=300)
    return list({str(l[:-1]): l for l in logs}.values())


def parse(raw):
    """-> status, headers, body, rest; None if it is no whole response"""
    head, sep, rest = raw.partition(b"\r\n\r\n")
    if not sep:
        return None
    lines = head.decode("latin1").split("\r\n")
    status = int(lines[0].split()[1])
    hdr = {}
    for l in lines[1:]:
        k, _, v = l.partition(":")
        hdr[k.lower()] = v.strip()
    if hdr.get("transfer-encoding") == "chunked":
        body = b""
        while True:
            size, sep, rest = rest.partition(b"\r\n")
            if not sep:
                return None
            n = int(size, 16)
            if len(rest) < n + 2:
                return None
            body += rest[:n]
            rest = rest[n + 2:]
            if n == 0:
                return status, hdr, body, rest
    if "content-length" in hdr:
        n = int(hdr["content-length"])
        return (status, hdr, rest[:n], rest[n:]) if len(rest) >= n else None
    return status, hdr, b"", rest


class ClusterRunner:
    flavor = "plain"
    n = 3

    def __init__(self):
        self.slots = max(6, self.n + 1)
        self.at = [4, 4 + self.slots, 4 + 2 * self.slots]
        conf = (CONF % self.n).replace("{pI}", "{p%d}" % self.at[1]).replace("{pJ}", "{p%d}" % self.at[2])
        for _ in range(8):
            self.ng = nginxd.Nginx(conf, flavor=self.flavor, nports=4 + 3 * self.slots, harness=True)
            p = self.ng.ports
            if all(p[b + i] == p[b] + i for b in self.at for i in range(self.slots)):
                break
            self.ng.stop()
        self.ng.expect_kill = True
        self.runs = 0

    # -- talking ------------------------------------------------------------
    def addr(self, s, kind):
        p = [self.ng.ports[i] for i in self.at]
        return {"port": (socket.AF_INET, ("127.0.0.1", p[0] + s)), "unix": (socket.AF_UNIX, f"{self.ng.dir}/w.{s}"),
                "inet": (socket.AF_INET, ("127.0.0.1", p[1] + s)), "inet6": (socket.AF_INET6, ("::1", p[2] + s))}[kind]

    def open(self, s, kind):
        fam, at = self.addr(s, kind)
        k = socket.socket(fam)
        k.settimeout(20)
        try:
            k.connect(at)
        except OSError:
            k.close()
            return None
        return k

    def ask(self, k, method, path, headers=(), body=b"", chunked=False):
        h = f"{method} {path} HTTP/1.1\r\nHost: some.host\r\n".encode("latin1")
        for n, v in headers:
            h += f"{n}: {v}\r\n".encode("latin1")
        if chunked:
            h += b"Transfer-Encoding: chunked\r\n\r\n"
            i = 0
            while i < len(body):
                n = self.rng.randint(1, max(1, len(body) // 3))
                h += b"%x\r\n" % len(body[i:i + n]) + body[i:i + n] + b"\r\n"
                i += n
            h += b"0\r\n\r\n"
        else:
            h += (b"Content-Length: %d\r\n" % len(body) if body or method in ("POST", "PUT") else b"") + b"\r\n" + body
        k.sendall(h)
        raw = b""
        while True:
            try:
                d = k.recv(1 << 17)
            except socket.timeout:
                raise Mismatch(f"{self.where}: {method} {path}: no complete answer after 20 s: {raw[:200]!r}...")
            except ConnectionError:
                d = b""
            raw += d
            if method == "HEAD" and b"\r\n\r\n" in raw:
                head = raw.split(b"\r\n\r\n")[0]
                st, hd, _, _ = parse(head.replace(b"chunked", b"") + b"\r\n\r\n") or (int(head.split()[1]), {"x-worker": head.decode("latin1").partition("X-Worker: ")[2].split("\r\n")[0]}, b"", b"")
                return st, hd, b""
            r = parse(raw)
            if r:
                if r[3]:
                    raise Mismatch(f"{self.where}: {method} {path}: {len(r[3])} bytes after the answer: {r[3][:100]!r}")
                return r[:3]
            if not d:
                return None

    def entries(self, body):
        try:
            return json.loads("[" + body.decode("latin1").rstrip(",\n") + "]")
        except ValueError:
            raise Mismatch(f"{self.where}: answer is {body[:300]!r}...{body[-100:]!r}")

    def check_who(self, got, by):
        """An answer names the process the specification says."""
        if (got["slot"], got["worker"], got["served"]) != (by["slot"], by["w"], by["n"]):
            raise Mismatch(f"{self.where}: served by worker {got['worker']} in slot {got['slot']} as its request {got['served']}, specified {by}")
        if self.pid.setdefault(got["slot"], got["pid"]) != got["pid"]:
            raise Mismatch(f"{self.where}: slot {got['slot']} is process {got['pid']}, was {self.pid[got['slot']]}")

    def peek(self, s, kind="port"):
        k = self.open(s, kind)
        if k is None:
            return None
        with k:
            r = self.ask(k, "GET", "/who?peek=1")
        return self.entries(r[2])[0] if r and r[0] == 200 else None

    def all(self, e):
        for s, w, n in e["all"]:
            got = self.peek(s)
            if got is None:
                raise Mismatch(f"{self.where}: worker {w} does not answer at slot {s}")
            self.check_who(got, dict(slot=s, w=w, n=n + self.base[s]))

    # -- requests -----------------------------------------------------------
    def shape(self):
        r = self.rng
        raw = b"".join(b"/" + b"".join(bytes([r.choice([r.randint(1, 9), r.randint(11, 46), r.randint(48, 255)])]) for _ in range(r.randint(1, 12))) + b"x"
                       for _ in range(r.randint(1, 4)))
        path = "".join(chr(c) if chr(c).isalnum() or c in b"/-_~:@!$&'()*,;=+" and r.random() < .7 else "%%%02x" % c for c in raw)
        args = "".join(r.choice("abc=&%+/?:;,.!~*'()[]{}|<>\"\\^`_-09") for _ in range(r.choice([0, 5, 40, 900]))).replace("to", "").replace("pe", "").replace("le", "")
        args = args.replace("%", "%25").replace("\"", "%22")
        body = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 10, 100, 5000, 9000, 40000, 200000])))
        method = r.choice(["GET", "GET", "POST", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD", "FOO"])
        if method in ("GET", "HEAD", "DELETE", "OPTIONS") and r.random() < .8:
            body = b""
        headers = [("X-" + "".join(r.choice("abcXYZ019-") for _ in range(r.randint(1, 20))), "".join(chr(r.choice([r.randint(33, 126), r.randint(161, 255), 32])) for _ in range(r.choice([0, 1, 10, 80, 2000]))).strip())
                   for _ in range(r.choice([0, 1, 3, 25]))]
        if sum(len(v) for _, v in headers) > 5000:
            headers = headers[:2]
        return method, raw, path, args, headers, body, r.random() < .3 and len(body) > 0

    def intact(self, got, method, uri, args, headers, body):
        def hx(s):
            return bytes.fromhex(s)
        for what, g, w in (("method", got["method"], method), ("URI", hx(got["uri"]), uri), ("arguments", hx(got["args"]), args.encode("latin1")), ("body", hx(got["body"]), body),
                           ("headers", sorted((hx(k).lower(), hx(v)) for k, v in self.pairs(got) if hx(k)[:2].lower() == b"x-"), sorted((k.lower().encode(), v.encode("latin1")) for k, v in headers)),
                           ("host", [hx(v) for k, v in self.pairs(got) if hx(k).lower() == b"host"], [b"some.host"])):
            if g != w:
                raise Mismatch(f"{self.where}: {what} arrived as {str(g)[:300]}, sent {str(w)[:300]}")

    @staticmethod
    def pairs(got):
        return [(k, v) for k, v in got["headers"] if k]

    def do_direct(self, e):
        for kind in ([self.rng.choice(("port",) + KINDS)] if e["by"]["w"] >= 0 else ("port",) + KINDS):
            k = self.open(e["s"], kind)
            if k is None:
                if e["by"]["w"] >= 0:
                    raise Mismatch(f"{self.where}: nobody listens at the {kind} address of slot {e['s']}")
                continue
            with k:
                method, raw, path, args, headers, body, chunked = self.shape()
                r = self.ask(k, method, "/who" + path + "?" + args, headers, body, chunked)
            if e["by"]["w"] < 0:
                raise Mismatch(f"{self.where}: somebody answers at the {kind} address of slot {e['s']}: {r}")
            if r is None or r[0] != 200:
                raise Mismatch(f"{self.where}: answer {str(r)[:200]}")
            if method != "HEAD":
                got = self.entries(r[2])[0]
                self.check_who(got, self.by(e["by"]))
                self.intact(got, method, b"/who" + raw, args, headers, body)

    def by(self, b):
        return dict(b, n=b["n"] + self.base.get(b["slot"], 0))

    def relay(self, s, w, by):
        r = self.rng
        kind = r.choice(KINDS)
        method, raw, path, args, headers, body, chunked = self.shape()
        status, pad = r.choice([200, 200, 404, 204, 503, 403]), r.choice([0, 0, 100, 5000, 70000])
        args = f"to={w}&status={status}&pad={pad}{'&chunked=1' if r.random() < .4 else ''}&" + args
        k = self.open(s, r.choice(("port",) + KINDS))
        if k is None:
            raise Mismatch(f"{self.where}: slot {s} does not answer")
        with k:
            got = self.ask(k, method, f"/to/{kind}{path}?{args}", headers, body, chunked)
        if by is not None and by["w"] < 0:
            if got is not None and got[0] != 502:
                raise Mismatch(f"{self.where}: a worker which is gone answered {got[0]} {got[2][:200]!r}")
            return
        if got is None or got[0] != status:
            raise Mismatch(f"{self.where}: {method} relayed by {kind}: answer {None if got is None else got[0]}, the worker's was {status}")
        pid, n = got[1].get("x-worker", "0 0").split()
        if by is not None:
            self.check_who(dict(slot=by["slot"], worker=by["w"], served=int(n), pid=int(pid)), by)
        if status != 204 and method != "HEAD":
            g = self.entries(got[2])[0]
            if by is not None:
                self.check_who(g, by)
            elif g["worker"] != w:
                raise Mismatch(f"{self.where}: served by worker {g['worker']}")
            self.intact(g, method, f"/to/{kind}".encode() + raw, args, headers, body)
            if len(g["pad"]) != pad:
                raise Mismatch(f"{self.where}: answer shorter by {pad - len(g['pad'])}")

    def do_relay(self, e):
        self.relay(e["s"], e["w"], self.by(e["by"]))

    def broadcast(self, s, want=None, workers=None):
        r = self.rng
        where = r.choice(["/all/unix", "/all/inet", "/all/inet6", "/list"])
        method = r.choice(["GET", "GET", "POST", "PUT", "DELETE"])
        pad = r.choice([0, 0, 100, 40000])
        status = r.choice([200, 200, 200, 404, 204])
        args = f"pad={pad}&status={status}{'&chunked=1' if r.random() < .4 else ''}&v={r.random()}"
        if where == "/list":
            args += "&lead=1"
        k = self.open(s, r.choice(("port",) + KINDS))
        if k is None:
            raise Mismatch(f"{self.where}: slot {s} does not answer")
        with k:
            got = self.ask(k, method, where + "?" + args, body=b"b" * r.choice([0, 0, 300]) if method in ("POST", "PUT") else b"")
        if got is None or got[0] != 200:
            raise Mismatch(f"{self.where}: {method} {where}: answer {str(got)[:200]}")
        body = got[2]
        if where == "/list":
            if body[-1:] != b"]":
                raise Mismatch(f"{self.where}: the suffix is missing: {body[-100:]!r}")
            body = body[:-1]
            if status == 200 and (body[:1] != b"[" or body.count(b"},\n,{") != len(workers) - 1):
                raise Mismatch(f"{self.where}: the prefix of the first answer, and of no other, is to be rewritten: {body[:100]!r}")
            body = body[1:].replace(b"},\n,", b"},")
        es = self.entries(body)
        if status != 200:
            if es:
                raise Mismatch(f"{self.where}: answers other than 200 in {body[:300]!r}")
            return
        if [x["worker"] for x in es] != workers:
            raise Mismatch(f"{self.where}: executed by workers {[x['worker'] for x in es]}, specified {workers}")
        for i, x in enumerate(es):
            if want:
                self.check_who(x, want[i])
            if x["method"] != method or bytes.fromhex(x["args"]).decode() != args or len(x["pad"]) != pad:
                raise Mismatch(f"{self.where}: worker {x['worker']} was asked {x['method']} {bytes.fromhex(x['args'])!r}, not {method} {args}")

    def do_broadcast(self, e):
        want = [self.by(b) for b in e["by"]]
        self.broadcast(e["s"], want, [b["w"] for b in want])

    def do_burst(self, e):
        errs = []

        def run(f, *a):
            try:
                f(*a)
            except Mismatch as x:
                errs.append(x)
            except Exception as x:
                errs.append(Mismatch(f"{self.where}: {x!r}"))
        ts = []
        for s in e["slots"]:
            ts += [threading.Thread(target=run, args=(self.broadcast, s, None, e["up"])) for _ in range(e["k"])]
            ts += [threading.Thread(target=run, args=(self.relay, s, w, None)) for w in e["up"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]

    # -- processes ----------------------------------------------------------
    def gone(self, pid):
        end = time.time() + 15
        while time.time() < end:
            try:
                if open(f"/proc/{pid}/stat").read().rpartition(")")[2].split()[0] == "Z":
                    return
            except OSError:
                return
            time.sleep(.005)
        raise Mismatch(f"{self.where}: process {pid} does not end")

    def do_hold(self, e):
        os.kill(self.ng.proc.pid, signal.SIGSTOP)

    def end(self, e, sig):
        pid = self.pid.pop(e["s"])
        os.kill(pid, sig)
        self.gone(pid)
        self.base[e["s"]] = 0

    def do_kill(self, e):
        self.end(e, signal.SIGKILL)

    def do_term(self, e):
        self.end(e, signal.SIGTERM)

    def do_quit(self, e):
        self.end(e, signal.SIGQUIT)

    def ready(self, slots, old=()):
        end = time.time() + 15
        for s in slots:
            while self.peek(s) is None:
                if time.time() > end or "cannot be respawned" in self.ng.errors():
                    raise Mismatch(f"{self.where}: nobody answers at slot {s}; {self.ng.errors()[-600:]}")
                time.sleep(.01)
        for p in old:
            self.gone(p)

    def do_respawn(self, e):
        os.kill(self.ng.proc.pid, signal.SIGCONT)
        self.ready([s for s, w, n in e["all"]])

    def do_reload(self, e):
        old = list(self.pid.values())
        self.pid = {}
        self.base = {s: 0 for s in range(self.slots)}
        self.ng.reload()
        self.ready(e["slots"], old)

    def run(self, b):
        seed = sum(map(ord, json.dumps(b, sort_keys=True, default=str)))
        self.rng = random.Random(seed)
        self.where = "begin"
        if self.runs:
            self.ng.stop()
            self.__init__()
        self.runs += 1
        self.pid, self.base = {}, {s: 0 for s in range(self.slots)}
        self.ready(range(self.n))
        for s in range(self.n):
            self.pid[s] = self.peek(s)["pid"]
        for i, e in enumerate(b):
            self.where = f"step {i} ({e['a']} {({k: v for k, v in e.items() if k not in ('a', 'all')})})"[:300]
            getattr(self, "do_" + e["a"])(e)
            self.all(e)
        os.kill(self.ng.proc.pid, signal.SIGCONT)
        return len(b)

    def health(self):
        for l in self.ng.errors().splitlines():
            if "signal 11" in l or "signal 6" in l or "exited with fatal code" in l:
                return "worker process died: " + l
        return self.ng.crashed()

    def close(self):
        try:
            os.kill(self.ng.proc.pid, signal.SIGCONT)
        except OSError:
            pass
        self.ng.stop()


class BigClusterRunner(ClusterRunner):
    n = 12


class AsanClusterRunner(ClusterRunner):
    flavor = "asan"

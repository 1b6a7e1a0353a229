"""Replays behaviours of spec/Access.tla: one nginx per behaviour with the
rules of its configuration, clients of every address family and protocol."""
import hashlib
import json
import os
import random
import socket
import time

import nginxd
import rtmp
from check import Mismatch
from live import FlvClient
from rtmp import Conn

BITS = {"4": 32, "6": 128}


def text(a):
    f, b = a["f"], bytes(a["b"])
    if f == "4":
        return socket.inet_ntop(socket.AF_INET, b)
    if f == "m":
        return "::ffff:" + socket.inet_ntop(socket.AF_INET, b)
    return socket.inet_ntop(socket.AF_INET6, b)


def same(t, a):
    """Whether t is a spelling of address a."""
    try:
        return socket.inet_pton(socket.AF_INET if a["f"] == "4" else socket.AF_INET6, t or "") == \
            socket.inet_pton(socket.AF_INET if a["f"] == "4" else socket.AF_INET6, text(a))
    except OSError:
        return False


def directives(rules, rnd):
    out = ""
    for r in rules:
        n = r["net"]
        if n["f"] == "all":
            t = "all"
        else:
            t = text(n)
            if n["len"] < BITS[n["f"]] or rnd.random() < .5:
                t += f"/{n['len']}"
        act = {"both": "", "publish": "publish ", "play": "play "}[r["act"]]
        out += f"{r['v']} {act}{t}; "
    return out


def conf(c, rnd):
    """Server s listens on p[4(s-1)]: direct, +1: proxy_protocol, +2: IPv6
    socket which takes IPv4 too, +3 HTTP, +4.. HTTP behind a proxy."""
    srv = http = ""
    for s, rules in enumerate(c["srv"]):
        apps = ""
        for p, ar in enumerate(c["app"][s], 1):
            apps += f"   application a{p} {{ live on; hls2 on; hls2_fragment 100ms; hls2_playlist_length 400ms; hls2_minfrags 1; {directives(ar, rnd)} }}\n"
        k = 6 * s
        # the rules of the server may come before or after its applications
        r = directives(rules, rnd)
        a, b = (r, "") if rnd.random() < .5 else ("", r)
        srv += (f"  server {{ serverid s{s}; listen {{p{k}}}; listen {{p{k + 1}}} proxy_protocol; listen [::]:{{p{k + 2}}} ipv6only=off; listen unix:{{dir}}/u{s};\n"
                f"  {a}\n{apps}  {b} }}\n")
        loc = f"location ~ \\.m3u8$ {{ hls2_live {{p{k}}}; }} location ~ \\.ts$ {{ ts_live {{p{k}}}; }} location / {{ flv_live {{p{k}}}; }}"
        http += f"  server {{ listen {{p{k + 3}}}; location /sys {{ sys_stat; }} {loc} }}\n"
        http += f"  server {{ listen [::]:{{p{k + 4}}} ipv6only=off; {loc} }}\n"
        http += (f"  server {{ listen {{p{k + 5}}} proxy_protocol; set_real_ip_from 127.0.0.1; real_ip_header proxy_protocol; {loc} }}\n")
    m = directives(c["main"], rnd)
    a, b = (m, "") if rnd.random() < .5 else ("", m)
    return f"worker_processes 1;\nevents {{ worker_connections 512; }}\nrtmp {{\n {a}\n{srv} {b}\n}}\nhttp {{\n access_log off;\n{http}}}\n"


def outgoing(addr, port):
    """A TCP connection which the server sees coming from addr, or None."""
    if addr["f"] in ("4", "m") and addr["b"][0] == 127 and addr["b"] != [127, 255, 255, 255] and addr["b"][1:] != [0, 0, 0]:
        s = socket.socket()
        s.bind((socket.inet_ntop(socket.AF_INET, bytes(addr["b"])), 0))
        s.connect(("127.0.0.1", port))
        return s
    if addr["f"] == "6" and addr["b"] == [0] * 15 + [1]:
        s = socket.socket(socket.AF_INET6)
        s.connect(("::1", port))
        return s


class HttpPlayer:
    def __init__(self, sock, path):
        self.sock = sock
        self.buf = b""
        sock.sendall(f"GET {path} HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n".encode())

    def status(self, timeout):
        end = time.time() + timeout
        while b"\r\n" not in self.buf and time.time() < end:
            self.sock.settimeout(max(.001, end - time.time()))
            try:
                x = self.sock.recv(4096)
            except socket.timeout:
                break
            except OSError:
                return 0
            if not x:
                return 0        # closed without an answer
            self.buf += x
        return int(self.buf.split()[1]) if b"\r\n" in self.buf else None

    def close(self):
        self.sock.close()


class AccessRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = None

    def health(self):
        return self.ng.crashed() if self.ng else None

    def close(self):
        if self.ng:
            self.ng.stop()
            self.ng = None

    def registry(self):
        st, _, body = nginxd.http_get(self.ng.ports[3], "/sys")
        if st != 200:
            raise Mismatch(f"sys_stat answered {st}")
        j = json.loads(body.decode("latin1"))
        r = {}
        for i, srv in enumerate(j["live_stream"]["server_array"]):
            for s in srv.get("stream_array", []):
                for c in s.get("client_array", []):
                    r[c.get("flashver", "")] = ("publish" if c["publishing"] else "play", s["name"], srv.get("serverid"), c.get("remote_address"))
        return r

    def run(self, b):
        log = b["log"]
        self.close()
        rnd = self.rnd = random.Random(hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest())
        c = log[0]["cfg"]
        self.ng = nginxd.Nginx(conf(c, rnd), flavor=self.flavor, nports=6 * len(c["srv"]), level="error")
        self.ses = {}
        self.gone = []
        try:
            for i, e in enumerate(log[1:], 2):
                self.where = f"step {i} {e['a']} {e['s']} {text(e['addr']) if 'addr' in e and e['addr']['f'] != 'u' else ''} {e.get('proto', '')}"
                self.step(i, e)
        finally:
            for x in self.ses.values():
                x["c"].close()
        c = self.ng.crashed()
        if c:
            raise Mismatch(c)
        self.close()
        return len(log)

    # ------------------------------------------------------------------
    def connect(self, e, proto):
        """A socket for an RTMP (rtmp) or HTTP client with the address of e."""
        a, k, rnd = e["addr"], 6 * (e["srv"] - 1), self.rnd
        ports = self.ng.ports[k:k + 6]
        r = proto == "rtmp"
        if a["f"] == "u":
            s = socket.socket(socket.AF_UNIX)
            s.connect(f"{self.ng.dir}/u{e['srv'] - 1}")
            return s
        if rnd.random() < .6:
            v6 = a["f"] in ("6", "m")
            s = outgoing(a, ports[(2 if v6 else 0) if r else (4 if v6 else 3)])
            if s:
                return s
        s = socket.create_connection(("127.0.0.1", ports[1 if r else 5]))
        f = "TCP4" if a["f"] == "4" else "TCP6"
        d = {"TCP4": "127.0.0.1", "TCP6": "::1"}[f]
        s.sendall(f"PROXY {f} {text(a)} {d} {rnd.choice([1, 40000, 65535])} 1935\r\n".encode())
        self.proxied = True
        return s

    def step(self, i, e):
        a = e["a"]
        if a == "leave":
            x = self.ses.pop(e["s"])
            if x["proto"] == "rtmp" and self.rnd.random() < .5:
                x["c"].delete_stream()
            x["c"].close()
            self.settle(e)
            return
        app, name, proto = f"a{e['app']}", f"n{e['name']}", e["proto"]
        ver = f"pv-{i}-{e['s']}"
        s = self.connect(e, proto)
        ok = e["ok"]
        if proto == "rtmp":
            c = SockConn(s)
            r = c.connect(app, flashVer=ver)
            if r[0] != "_result":
                raise Mismatch(f"{self.where}: connect answered {r}")
            c.create_stream()
            c.publish(name) if a == "publish" else c.play(name)
            if ok:
                want = "NetStream.Publish.Start" if a == "publish" else "NetStream.Play.Start"
                try:
                    c.wait(lambda m: m.type == rtmp.CMD and rtmp.statuses([m]) == [want], 5)
                except (rtmp.Closed, rtmp.Timeout):
                    raise Mismatch(f"{self.where}: no rule forbids it, but it was refused")
            else:
                if not c.wait_closed(5):
                    raise Mismatch(f"{self.where}: the first matching rule denies it, but the client is still connected")
                bad = [x for x in rtmp.statuses(c.take()) if x.endswith(".Start")]
                if bad:
                    raise Mismatch(f"{self.where}: the first matching rule denies it, but the client got {bad}")
        else:
            path = f"/{app}/{name}" + {"flv": "", "ts": ".ts", "hls": ".m3u8"}[proto] + f"?flashver={ver}" + (f"&session={ver}" if proto == "hls" else "")
            c = HttpPlayer(s, path)
            st = c.status(.1 if ok else 5)
            if ok and st not in (None, 200):
                raise Mismatch(f"{self.where}: no rule forbids it, but the answer is HTTP {st}")
            if not ok and st in (None, 200):
                raise Mismatch(f"{self.where}: the first matching rule denies it, but the answer is {st}")
        if ok:
            self.ses[e["s"]] = {"c": c, "proto": proto, "ver": ver, "act": a, "name": name, "addr": e["addr"]}
        else:
            c.close()
        self.settle(e)

    def settle(self, e):
        want = {x["ver"]: (x["act"], x["name"]) for x in self.ses.values() if x["proto"] in ("rtmp", "flv")}
        if set(self.ses) != set(e["joined"]):
            raise Mismatch(f"{self.where}: joined {sorted(self.ses)}, specified {e['joined']}")
        end = time.time() + 5
        while True:
            r = self.registry()
            got = {k: (v[0], v[1].split("/")[-1]) for k, v in r.items()}
            if got == want:
                break
            if time.time() > end:
                raise Mismatch(f"{self.where}: registry has {got}, specified {want}")
            time.sleep(.01)
        for x in self.ses.values():
            if x["addr"]["f"] != "u" and x["ver"] in r:
                adr = r[x["ver"]][3]
                if not same(adr, x["addr"]):
                    raise Mismatch(f"{self.where}: the statistics show address {adr} for {text(x['addr'])}")


class SockConn(Conn):
    """Conn over a connected socket."""

    def __init__(self, sock):
        self.pre = sock
        super().__init__(None)


class AsanAccessRunner(AccessRunner):
    flavor = "asan"

"""Replays behaviours of spec/Control.tla: sessions of several service ids,
applications, names and client addresses, and control requests about them."""
import hashlib
import json
import random
import socket
import struct
import time

import access
import nginxd
import rtmp
from check import Mismatch
from live import FlvClient
from rtmp import AUDIO, VIDEO, Closed, Timeout

APPS = {1: "x", 2: "xy", 3: "k"}
NAMES = {1: "n", 2: "nn"}
ADDRS = {1: "127.0.0.1", 2: "127.0.0.11", 3: "127.0.0.111"}


def conf():
    apps = "application x { live on; wait_key off; } application xy { live on; wait_key off; } application k { live on; wait_key off; idle_streams off; }"
    srv = "".join(f" server {{ listen {{p{i}}}; serverid s{i + 1}; {apps} }}\n" for i in range(2))
    http = "".join(f" location /f{i + 1} {{ rewrite ^/f./(.*) /$1 break; flv_live {{p{i}}}; }}\n" for i in range(2))
    return ("worker_processes 1;\nstream_buckets 2;\nserver_buckets 1;\nevents { worker_connections 512; }\nrtmp {\n" + srv +
            "}\nhttp {\n access_log off;\n server { listen {p2}; location /sys { sys_stat; } location /pv { pv_state; } location /c { rtmp_control all; }\n"
            " location /nodrop { rtmp_control pause resume; } location /nopause { rtmp_control drop resume redirect; } location /noresume { rtmp_control drop pause; } }\n"
            + "".join(f" server {{ listen {{p{3 + i}}}; location / {{ flv_live {{p{i}}}; }} }}\n" for i in range(2)) + "}\n")


class ControlRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=5, harness=True, level="error")

    def close(self):
        self.ng.stop()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return f"the worker was replaced: {self.ng.worker0} -> {self.ng.workers()}"

    def registry(self):
        st, _, body = nginxd.http_get(self.ng.ports[2], "/sys")
        if st != 200:
            raise Mismatch(f"sys_stat answered {st}")
        r = {}
        for srv in json.loads(body.decode("latin1"))["live_stream"]["server_array"]:
            for s in srv.get("stream_array", []):
                for c in s.get("client_array", []):
                    r[c.get("flashver", "")] = ("pub" if c["publishing"] else "play", s["name"], c["id"])
        return r

    def run(self, b):
        log = b["log"]
        h = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        self.rnd = random.Random(h)
        self.tag = h[:6]
        self.ses = {}
        self.nf = 0
        self.late = None
        try:
            for i, e in enumerate(log, 1):
                self.where = f"step {i} {e['a']} {e.get('s', '')}{e.get('sec', '')} {e.get('req', '')}"
                getattr(self, "do_" + e["a"])(e, i)
                if e["a"] != "frame":
                    self.settle(e)
            self.flush(sync=True)
        finally:
            for x in self.ses.values():
                x["c"].close()
            self.ses = {}
            self.wait_empty()
        return len(log)

    def wait_empty(self):
        end = time.time() + 5
        while self.registry():
            if time.time() > end:
                raise Mismatch(f"sessions are left after all clients are gone: {self.registry()}")
            time.sleep(.01)

    # ------------------------------------------------------------------
    def path(self, k):
        return APPS[k[1]], NAMES[k[2]] + self.tag

    def open(self, e, i, flv):
        k = e["k"]
        app, name = self.path(k)
        ver = f"pv{self.tag}{i}"
        s = socket.socket()
        s.bind((ADDRS[e["addr"]], 0))
        s.connect(("127.0.0.1", self.ng.ports[(3 if flv else 0) + k[0] - 1]))
        x = {"ver": ver, "k": k, "flv": flv, "want": [], "sent": set()}
        if flv:
            c = BoundFlv(s, f"/{app}/{name}?flashver={ver}")
        else:
            c = access.SockConn(s)
            r = c.connect(app, flashVer=ver)
            if r[0] != "_result":
                raise Mismatch(f"{self.where}: connect answered {r}")
            c.create_stream()
        x["c"] = c
        self.ses[e["s"]] = x
        return c, name, x

    def do_publish(self, e, i):
        c, name, x = self.open(e, i, False)
        c.publish(name + (f"?pubpri={e['pri']}" if e["pri"] or self.rnd.random() < .3 else ""))
        want = "NetStream.Publish.Start" if e["ok"] else "NetStream.Publish.BadName"
        c.wait(lambda m: m.type == rtmp.CMD and rtmp.statuses([m]) == [want], 5)
        x["role"] = "pub" if e["ok"] else "dup"

    def do_play(self, e, i):
        flv = e["s"] in FLV
        c, name, x = self.open(e, i, flv)
        if not flv:
            c.play(name)
            c.wait(lambda m: m.type == rtmp.CMD and rtmp.statuses([m]) == ["NetStream.Play.Start"], 5)
        x["role"] = "play"

    def do_leave(self, e, i):
        self.flush()
        x = self.ses.pop(e["s"])
        if not x["flv"] and self.rnd.random() < .5:
            x["c"].delete_stream()
        x["c"].close()
        self.gone(e["out"])

    def do_frame(self, e, i):
        x = self.ses[e["s"]]
        if self.late not in (None, e["s"]) and self.late in self.ses:
            self.ses[self.late]["c"].sync()
        self.nf += 1
        body = b"%s-%d" % (self.tag.encode(), self.nf) * 4
        t, head = {"k": (VIDEO, b"\x17\1\0\0\0"), "i": (VIDEO, b"\x27\1\0\0\0"), "a": (AUDIO, b"\xaf\1")}[e["f"]]
        x["c"].send(t, head + body, self.nf * 10)
        self.late = e["s"]
        for q in e["to"]:
            self.ses[q]["want"].append((t, head + body))

    def flush(self, sync=False):
        """Everything sent so far has been handled; everybody got what was due, in order."""
        if self.late in self.ses:
            self.ses[self.late]["c"].sync()
        self.late = None
        for s, x in self.ses.items():
            c = x["c"]
            got = x.setdefault("got", [])
            if sync and not x["flv"]:
                got += [(m.type, m.data) for m in c.sync() if m.type in (AUDIO, VIDEO)]
            end = time.time() + 5
            while True:
                c.drain()
                got += [(m.type, m.data) for m in c.take() if m.type in (AUDIO, VIDEO)]
                if len(got) >= len(x["want"]) or c.closed or time.time() > end:
                    break
                c.read_some(.1)
            if got != x["want"]:
                raise Mismatch(f"{self.where}: session {s} got {len(got)} frames {got[-3:]}, specified {len(x['want'])} {x['want'][-3:]}")

    def gone(self, out):
        for s in out:
            if s not in self.ses:
                continue
            x = self.ses.pop(s)
            if not x["c"].wait_closed(5):
                raise Mismatch(f"{self.where}: session {s} is still connected")
            got = x.get("got", []) + [(m.type, m.data) for m in x["c"].take() if m.type in (AUDIO, VIDEO)]
            if got != x["want"]:
                raise Mismatch(f"{self.where}: session {s} got {len(got)} frames, specified {len(x['want'])}")
            x["c"].close()

    def args(self, r, srv=True):
        a = []
        if srv:
            a.append(f"srv={'s%d' % r['srv'] if r['srv'] else self.rnd.choice(['s', 's12', 'none'])}")
        if r["app"]:
            a.append("app=" + APPS[r["app"]])
        if r["name"]:
            a.append("name=" + NAMES[r["name"]] + self.tag)
        if r["addr"]:
            a.append("addr=" + ADDRS[r["addr"]])
        if r["cid"]:
            n = 999999
            if r["cid"] > 0:
                n = self.registry()[self.ses[r["cid"]]["ver"]][2]
            a.append(f"clientid={n}")
        self.rnd.shuffle(a)
        return "&".join(a)

    def do_control(self, e, i):
        self.flush()
        r = e["req"]
        st, _, body = nginxd.http_get(self.ng.ports[2], f"/c/{e['sec']}/{r['role']}?{self.args(r)}")
        if st != 200 or body.decode("latin1").strip() != str(e["count"]):
            raise Mismatch(f"{self.where}: answered {st} {body[:40]}, specified {e['count']}")
        self.gone(e["out"])

    def do_refused(self, e, i):
        self.flush()
        r, how, sec = e["req"], e["how"], e["sec"]
        loc = "/no" + sec if how == "notallowed" else "/c"
        role = self.rnd.choice(["", "clients", "publish", "all", "publisherx"]) if how == "badrole" else r["role"]
        if how == "section":
            sec = self.rnd.choice([sec[:-1], sec + "x", "", sec.upper()])
        st, _, body = nginxd.http_get(self.ng.ports[2], f"{loc}/{sec}/{role}?{self.args(r, how != 'nosrv')}")
        if st < 400:
            raise Mismatch(f"{self.where}: answered {st} {body[:40]}")

    def settle(self, e):
        want = {}
        for s, x in self.ses.items():
            if x["role"] != "dup":
                app, name = self.path(x["k"])
                want[x["ver"]] = (x["role"], f"s{x['k'][0]}/{app}/{name}")
        spec = {i: r for i, r in enumerate(e["reg"], 1) if r != "idle"}
        if {s: x["role"] for s, x in self.ses.items()} != spec:
            raise Mismatch(f"{self.where}: sessions {self.ses}, specified {spec}")
        end = time.time() + 5
        while True:
            got = {k: v[:2] for k, v in self.registry().items()}
            if got == want:
                break
            if time.time() > end:
                raise Mismatch(f"{self.where}: registry has {got}, specified {want}")
            time.sleep(.01)
        for s, x in self.ses.items():
            x["c"].drain()
            if x["c"].closed:
                raise Mismatch(f"{self.where}: session {s} was closed too")


class BoundFlv(FlvClient):
    def __init__(self, sock, path):
        self.sock = sock
        sock.sendall(f"GET {path} HTTP/1.1\r\nHost: h\r\n\r\n".encode("latin1"))
        self.raw = self.body = b""
        self.status = None
        self.left = 0
        self.tail = False
        self.started = self.closed = self.chunked = False
        self.inbox = []


FLV = {6, 7}


class AsanControlRunner(ControlRunner):
    flavor = "asan"

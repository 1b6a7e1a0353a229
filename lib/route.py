"""Replays behaviours of spec/Route.tla: one nginx per behaviour with its
servers, listen addresses and names; RTMP and HTTP-FLV clients of any host."""
import hashlib
import json
import os
import random
import socket
import struct
import time

import nginxd
import rtmp
from access import SockConn
from check import Mismatch
from live import FlvClient

IP = {4: {0: "0.0.0.0", 1: "127.0.0.1", 2: "127.0.0.2", 9: "127.0.0.3"}, 6: {0: "::", 1: "::1", 9: "::1"}}
SYS = 2


def dom(h):
    return ".".join(h)


def listen(a):
    ip = IP[a["f"]][a["ip"]]
    return f"[{ip}]:{{p{a['port'] - 1}}}" if a["f"] == 6 else f"{ip}:{{p{a['port'] - 1}}}"


def key(a):
    return (a["f"], a["ip"], a["port"])


def idle_off(s, app):
    return (s + {"x": 0, "xy": 1, "*": 2}[app]) % 3 == 0


def conf(cfg, rnd):
    listed = {}
    for i, s in enumerate(cfg):
        for l in s["listen"]:
            listed.setdefault(key(l), l)
    bound = [a for k, a in listed.items() if a["ip"] == 0 or (a["f"], 0, a["port"]) not in listed]
    srv = ""
    setv6 = set()
    for i, s in enumerate(cfg, 1):
        body = []
        for l in s["listen"]:
            o = ""
            if l["def"]:
                o += rnd.choice([" default", " default_server"])
            if l["bind"]:
                o += " bind"
            if l["f"] == 6 and l["ip"] == 0:
                o += " ipv6only=on"
            if l["pp"]:
                o += " proxy_protocol"
            t = listen(l)
            if l["f"] == 4 and l["ip"] == 0:
                t = rnd.choice([t, t.replace("0.0.0.0:", ""), t.replace("0.0.0.0", "*")])
            body.append(f"listen {t}{o};")
        names = []
        for n in s["names"]:
            t = dom(n["h"])
            names.append({"exact": t, "lead": "*." + t, "dot": "." + t, "trail": t + ".*", "re": f"~^{t}\\."}[n["k"]])
        names = [n.upper() if n[0] != "~" and rnd.random() < .2 else n for n in names]
        if names:
            if rnd.random() < .5:
                body.append(f"server_name {' '.join(names)};")
            else:
                body += [f"server_name {n};" for n in names]
        body.append(f"chunk_size {1000 + i}; max_streams {20 + 10 * i};")
        if s["sid"]:
            body.append(f"serverid s{s['sid']};")
        for a in sorted(s["apps"]):
            body.append(f"application {a} {{ live on; {'idle_streams off; ' if idle_off(i, a) else ''}}}")
        fixed = [b for b in body if b.startswith("listen") or b.startswith("server_name")]
        rest = [b for b in body if b not in fixed]
        rnd.shuffle(rest)
        out = []
        while fixed or rest:        # keep the order of listens and names
            out.append((fixed if fixed and (not rest or rnd.random() < .5) else rest).pop(0))
        srv += "  server {\n    " + "\n    ".join(out) + "\n  }\n"
    http = f"  server {{ listen {{p{SYS}}}; location /sys {{ sys_stat; }} }}\n"
    flv = {}
    for j, a in enumerate(bound):
        flv[key(a)] = SYS + 1 + j
        http += f"  server {{ listen {{p{SYS + 1 + j}}}; location / {{ flv_live {listen(a)}; }} }}\n"
    c = f"worker_processes 1;\nevents {{ worker_connections 512; }}\nrtmp {{\n{srv}}}\nhttp {{\n access_log off;\n{http}}}\n"
    return c, flv, SYS + 1 + len(bound)


class RouteRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = None

    def health(self):
        return self.ng.crashed() if self.ng else None

    def close(self):
        if self.ng:
            self.ng.stop()
            self.ng = None

    def registry(self):
        st, _, body = nginxd.http_get(self.ng.ports[SYS], "/sys")
        if st != 200:
            raise Mismatch(f"sys_stat answered {st}")
        j = json.loads(body.decode("latin1"))
        r = {}
        for srv in j["live_stream"]["server_array"]:
            for s in srv.get("stream_array", []):
                for c in s.get("client_array", []):
                    r[c.get("flashver", "")] = (srv.get("serverid"), s["name"], "publish" if c["publishing"] else "play")
        return r

    def run(self, b):
        log = b["log"]
        self.close()
        self.rnd = rnd = random.Random(hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest())
        if not log:
            return 0
        c, self.flv, n = conf(log[0]["cfg"], rnd)
        try:
            self.ng = nginxd.Nginx(c, flavor=self.flavor, nports=n, level="error")
        except RuntimeError as e:
            raise Mismatch(f"nginx does not start with a valid configuration: {str(e)[-600:]}")
        self.ses = {}
        self.seq = 0
        try:
            for i, e in enumerate(log[1:], 2):
                self.where = f"step {i} {e['a']} {e['s']} {json.dumps(e.get('at', ''))} {e.get('host', '')}/{e.get('app', '')}/{e.get('name', '')} {e.get('form', '')}"
                getattr(self, "do_" + (e["a"] if e["a"] in ("send", "leave") else "ask"))(i, e)
                self.settle(e)
        finally:
            for x in self.ses.values():
                x["c"].close()
        x = self.ng.crashed()
        if x:
            raise Mismatch(x)
        self.close()
        return len(log)

    # ------------------------------------------------------------------
    def do_ask(self, i, e):
        form, r = e["form"], e["r"]
        ver = f"pv-{i}-{e['s']}"
        if form == "flv" and key(e["addr"]) in self.flv:
            return self.ask_flv(e, ver)
        at = e["at"]
        fam = socket.AF_INET6 if at["f"] == 6 else socket.AF_INET
        s = socket.socket(fam)
        s.settimeout(5)
        s.connect((IP[at["f"]][at["ip"]], self.ng.ports[at["port"] - 1]))
        if e["pp"]:
            s.sendall(b"PROXY TCP4 192.0.2.7 192.0.2.8 1000 1935\r\n")
        try:
            c = SockConn(s)
        except (rtmp.Closed, rtmp.Timeout):
            raise Mismatch(f"{self.where}: no handshake (proxy protocol {'expected' if e['pp'] else 'not expected'} on this address)")
        h, app, port = dom(e["host"]), e["app"], self.ng.ports[at["port"] - 1]
        url, asked = f"rtmp://{h}/{app}", app
        if form == "port":
            url = f"rtmp://{h}:{port}/{app}"
        elif form == "user":
            url = f"rtmp://user@{h}/{app}"
        elif form == "ip":
            asked = f"{h}/{app}"
            url = f"rtmp://{IP[4][1]}/{asked}"
        elif form == "args":
            asked = f"{app}?k=v/w"
            url = f"rtmp://{h}/{asked}"
        elif form == "definst":
            asked = f"{app}/_definst_"
        elif form == "slash":
            asked = f"{app}/"
        try:
            res = c.connect(asked, tcurl=url, flashVer=ver)
        except rtmp.Closed:
            res = None
        if r["srv"] == 0:
            if res is not None:
                raise Mismatch(f"{self.where}: there is no such application, but connect answered {res}")
            c.close()
            return
        if res is None or res[0] != "_result":
            raise Mismatch(f"{self.where}: server {r['srv']} application {r['app']} serves it, but connect answered {res}")
        chunk = [struct.unpack(">I", m.data[:4])[0] for m in c.log if m.type == 1]
        if chunk != [1000 + r["srv"]]:
            raise Mismatch(f"{self.where}: served by server {[x - 1000 for x in chunk]}, specified {r['srv']}")
        c.create_stream()
        # any chunk stream may be used up to the limit of the server
        top = 20 + 10 * e["lim"]
        c.cmd("FCPublish", None, "n", csid=self.rnd.choice([top - 1, top - 1, 20]))
        name = f"n{e['name']}"
        c.publish(name) if e["a"] == "publish" else c.play(name)
        want = {("publish", True): "NetStream.Publish.Start", ("publish", False): "NetStream.Publish.BadName",
                ("play", True): "NetStream.Play.Start", ("play", False): "NetStream.Play.StreamNotFound"}[(e["a"], e["ok"])]
        try:
            if want.endswith("NotFound"):       # closed at once, the status rarely gets out
                if not c.wait_closed(5) or "NetStream.Play.Start" in rtmp.statuses(c.inbox):
                    raise rtmp.Timeout()
            else:
                c.wait(lambda m: rtmp.statuses([m]) == [want], 5)
        except (rtmp.Closed, rtmp.Timeout):
            raise Mismatch(f"{self.where}: {want} expected, got {rtmp.statuses(c.inbox)}")
        if e["ok"]:
            self.join(e, c, ver)
        else:
            if e["a"] == "publish":     # beyond the limit: this client goes, nobody else notices
                c.cmd("FCPublish", None, "n", csid=self.rnd.choice([top, top, 63 + 256, 65599]))
                if not c.wait_closed(5):
                    raise Mismatch(f"{self.where}: chunk stream beyond max_streams {top} accepted")
            c.close()

    def ask_flv(self, e, ver):
        h = dom(e["host"])
        c = FlvClient(self.ng.ports[self.flv[key(e["addr"])]], f"/{e['app']}/n{e['name']}?flashver={ver}",
                      host=h + self.rnd.choice(["", ":8080"]), headers="Connection: close\r\n")
        if e["ok"]:
            self.join(e, c, ver)
            return
        if not c.wait_closed(5) or c.status == 200 and c.started:
            raise Mismatch(f"{self.where}: no such application or stream, but HTTP-FLV answered {c.status}")
        c.close()

    def join(self, e, c, ver):
        sid = f"s{e['r']['sid']}" if e["r"]["sid"] else "default"
        self.ses[e["s"]] = {"c": c, "ver": ver, "reg": (sid, f"{sid}/{e['app']}/n{e['name']}", e["a"])}

    def do_leave(self, i, e):
        x = self.ses.pop(e["s"])
        if isinstance(x["c"], rtmp.Conn) and self.rnd.random() < .5:
            x["c"].delete_stream()
            x["c"].drain()
        x["c"].close()
        for y in e["also"]:
            c = self.ses.pop(y)["c"]
            if not c.wait_closed(5):
                raise Mismatch(f"{self.where}: player {y} of an application without idle streams stays")
            c.close()

    def do_send(self, i, e):
        self.seq += 1
        data = b"\xaf\x01" + f"frame {self.seq}".encode()
        c = self.ses[e["s"]]["c"]
        c.send(rtmp.AUDIO, data, ts=self.seq * 20)
        c.sync()
        end = time.time() + 5
        for y in e["to"]:
            p = self.ses[y]["c"]
            while not any(m.type == rtmp.AUDIO and bytes(m.data) == data for m in p.inbox):
                if time.time() > end:
                    raise Mismatch(f"{self.where}: player {y} of the stream does not get the frame")
                p.read_some(.2)
        for y, s in self.ses.items():
            p = s["c"]
            if y not in e["to"] and y != e["s"]:
                p.drain()
                if any(m.type == rtmp.AUDIO and bytes(m.data) == data for m in p.inbox):
                    raise Mismatch(f"{self.where}: session {y} of another stream gets the frame")
            p.take()

    def settle(self, e):
        want = {x["ver"]: x["reg"] for x in self.ses.values()}
        end = time.time() + 5
        while True:
            got = self.registry()
            if got == want:
                break
            if time.time() > end:
                raise Mismatch(f"{self.where}: registry has {got}, specified {want}")
            time.sleep(.01)


class AsanRouteRunner(RouteRunner):
    flavor = "asan"

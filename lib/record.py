"""Replays behaviours of spec/Record.tla: publishers of recorded applications;
after every step the recorded files are compared byte for byte with what the
specification says they hold."""
import hashlib
import http.server
import json
import os
import queue
import random
import socket
import threading
import time
import urllib.parse

import access
import nginxd
import rtmp
from check import Mismatch
from rtmp import AUDIO, VIDEO, Conn, Closed, Timeout

Z = dict(a=True, v=True, kf=False, man=False, ap=False, un=False, ms=0, mf=0, int=0, bad=False)


def rec(**kw):
    return dict(Z, **kw)


# name: (recorders, publishing is asynchronous)
PROFILES = {
    "all": ([rec()], False),
    "kinds": ([rec(v=False), rec(a=False), rec(a=False, v=False, kf=True), rec(v=False, kf=True)], False),
    "append": ([rec(ap=True), rec(ap=True, mf=3), rec(ap=True, ms=9000)], False),
    "limits": ([rec(mf=2), rec(ms=6000), rec(ms=20), rec(mf=4, int=2)], False),
    "manual": ([rec(man=True), rec(man=True, v=False), rec(man=True, ap=True), rec()], False),
    "interval": ([rec(bad=True), rec(int=1), rec(int=1, ap=True), rec(int=2), rec(bad=True, int=1)], False),
    "unique": ([rec(un=True), rec(un=True, mf=3), rec(un=True, ap=True)], False),
    "gate": ([rec(), rec(ap=True)], True),
}


def consts(profile, **kw):
    return consts_of(*PROFILES[profile], **dict(dict(MaxTick=1 if profile == "unique" else 0, MaxLevel=10**9), **kw))


def consts_of(rs, asy, **kw):
    tla = "<<" + ", ".join("[" + ", ".join(f"{k} |-> {str(v).upper() if isinstance(v, bool) else v}" for k, v in r.items()) + "]" for r in rs) + ">>"
    return dict(dict(Recs=tla, Async=asy), **kw)


def conf():
    apps = ""
    for p, (rs, asy) in PROFILES.items():
        body = ""
        for i, r in enumerate(rs, 1):
            flags = " ".join(n for k, n in (("a", "audio"), ("v", "video"), ("kf", "keyframes"), ("man", "manual")) if r[k])
            if r["a"] and r["v"]:
                flags = flags.replace("audio video", "all")
            d = f"record {flags}; record_path {{dir}}/rec/{'no/' if r['bad'] else ''}{p}{i}; record_notify on; record_suffix -{i}.flv; "
            r1 = rs[0]                           # a recorder inherits what the application says
            d += "".join(f"record_{n} {'on' if r[k] else 'off'}; " for k, n in (("ap", "append"), ("un", "unique")) if i == 1 or r[k] != r1[k])
            d += "".join(f"record_max_{n} {r[k]}; " for k, n in (("ms", "size"), ("mf", "frames")) if r[k] != (r1[k] if i > 1 else 0))
            d += "record_lock on; " * (i == 2)
            d += ["", "record_interval 1ms; ", "record_interval 1h; "][r["int"]]
            body += f"      recorder r{i} {{ {d} }}\n" if i > 1 else "      " + d + "\n"
        if asy:
            body += "      on_publish http://127.0.0.1:{p2}/;\n"
        apps += f"    application {p} {{ live on; deny publish 127.0.0.66;\n{body}    }}\n"
    return ("worker_processes 1;\nevents { worker_connections 512; }\nrtmp {\n server { listen {p0}; live_record_path {dir}/lr;\n" + apps +
            " }\n}\nhttp {\n access_log off;\n server { listen {p1}; location /pv { pv_state; } location /sys { sys_stat; } location /c { rtmp_control all; } }\n}\n")


class Gate(http.server.ThreadingHTTPServer):
    """Answers on_publish callbacks when told to."""
    daemon_threads = True

    class H(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            q = urllib.parse.parse_qs(urllib.parse.urlparse(self.path).query)
            code = 200
            if q.get("act", [""])[0] == "start":
                x = {"ev": threading.Event(), "code": 200, "name": q.get("name", [""])[0]}
                self.server.asked.put(x)
                x["ev"].wait(30)
                code = x["code"]
            self.send_response(code)
            self.send_header("Content-Length", "0")
            self.end_headers()
        do_POST = do_GET

        def log_message(self, *a):
            pass

    def __init__(self, port):
        self.asked = queue.Queue()
        super().__init__(("127.0.0.1", port), self.H)
        threading.Thread(target=self.serve_forever, daemon=True).start()


class Late(Exception):
    """A second passed where the behaviour has none: try again."""


HEAD = b"FLV\x01\x05\0\0\0\x09\0\0\0\0"
LEAD = {"ah": b"\xaf\0", "a": b"\xaf\1", "m3": b"\x2f\xff", "vh": b"\x17\0\0\0\0", "k": b"\x17\1\0\0\0", "i": b"\x27\1\0\0\0",
        "hvh": b"\x1c\0\0\0\0", "hk": b"\x1c\1\0\0\0", "hi": b"\x2c\1\0\0\0", "sk": b"\x12\x84", "si": b"\x22\x84"}
AUDIOS = ("ah", "a", "m3")
NAMES = ["n", "a/b", "../e", "..", "x.y", "n-1", "a//c", "q" * 180, "n.flv"]


class RecordRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=3, harness=True, level="error")
        for p, (rs, _) in PROFILES.items():
            for i in range(1, len(rs) + 1):
                os.makedirs(f"{self.ng.dir}/rec/{p}{i}")
                os.chmod(f"{self.ng.dir}/rec/{p}{i}", 0o777)
        self.gate = Gate(self.ng.ports[2])

    def close(self):
        self.gate.shutdown()
        self.gate.server_close()
        self.ng.stop()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return f"the worker was replaced: {self.ng.worker0} -> {self.ng.workers()}"

    # ------------------------------------------------------------ helpers
    def registry(self):
        st, _, body = nginxd.http_get(self.ng.ports[1], "/sys")
        if st != 200 or not body:
            raise Mismatch(f"{self.where}: sys_stat answered {st}, {len(body)} bytes")
        r = set()
        for srv in json.loads(body.decode("latin1"))["live_stream"]["server_array"]:
            for s in srv.get("stream_array", []):
                for c in s.get("client_array", []):
                    r.add(c.get("flashver", ""))
        return r

    def until(self, f, what, timeout=8):
        end = time.time() + timeout
        while not f():
            if time.time() > end:
                raise Mismatch(f"{self.where}: {what}")
            time.sleep(.004)

    def name(self, n):
        return self.names[n] + self.tag

    def path(self, k):
        r, n, t = k
        esc = urllib.parse.quote(self.name(n), safe="")
        un = f"-{self.sec + t}" if PROFILES[self.prof][0][r - 1]["un"] else ""
        return f"{self.ng.dir}/rec/{self.prof}{r}/{esc}{un}-{r}.flv"

    def payload(self, m, k, n):
        d = bytearray(hashlib.sha256(f"{self.tag}{m}".encode()).digest() * (n // 32 + 2))
        d[:len(LEAD[k])] = LEAD[k]
        # the TS recorder, which control requests start as well, ends the
        # session of a publisher whose NAL units do not add up
        if k == "vh":
            d[9] = 0xff                       # lengths of 4 bytes
        elif k == "hvh":
            d[26:28] = b"\xff\0"
        elif k in ("k", "i", "hk", "hi"):
            d[5:9] = max(n - 9, 0).to_bytes(4, "big")
        return bytes(d[:n])

    # ----------------------------------------------------------------- run
    def run(self, b):
        h = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        for k in range(5):
            try:
                return self.once(b, h[:6] + str(k))
            except Late:
                pass
        return 0

    def once(self, b, h):
        self.prof = b["profile"]
        self.rs = PROFILES[self.prof][0]
        self.un = any(r["un"] for r in self.rs)
        self.rnd = random.Random(h)
        self.tag = "-" + h
        self.names = self.rnd.sample(NAMES, 4)
        self.ses = {}
        self.msg = {}
        self.exp = {}
        self.tick = 0
        self.sec = 0
        self.where = "start"
        if self.un:
            self.second()
            self.sec = int(time.time())
        try:
            for i, e in enumerate(b["log"], 1):
                self.where = f"step {i} {e['a']} {e}"[:300]
                getattr(self, "do_" + e["a"])(e)
                self.timely()
            self.where = "end"
        finally:
            for x in self.ses.values():
                x["c"].close()
            self.until(lambda: not self.registry(), "sessions are left after all clients are gone")
            for f in self.files():
                os.unlink(f)
        return len(b["log"])

    def second(self):
        time.sleep(1.03 - time.time() % 1)

    def timely(self):
        if self.un and int(time.time() - .01) != self.sec + self.tick:
            raise Late()

    # --------------------------------------------------------------- files
    def apply(self, e):
        """What the step does to the files, and the statuses it causes."""
        out = []
        for v in e["e"]:
            o, k = v["o"], tuple(v.get("k", ()))
            rid = f"r{v['r']}" if v.get("r", 0) > 1 else ""
            if o == "failed":
                out.append(("NetStream.Record.Failed", rid))
            elif o == "open":
                if v["tr"] or k not in self.exp:
                    self.exp[k] = b""
                out.append(("NetStream.Record.Start", rid))
            elif o == "head":
                self.exp[k] = HEAD
            elif o == "tag":
                kind, d = self.msg[v["m"]]
                t = v["ts"]
                self.exp[k] += bytes([8 if kind in AUDIOS else 9]) + len(d).to_bytes(3, "big") + (t & 0xffffff).to_bytes(3, "big") + \
                    bytes([t >> 24, 0, 0, 0]) + d + (len(d) + 11).to_bytes(4, "big")
            elif o == "close":
                if v["av"] >= 0:
                    x = self.exp[k]
                    self.exp[k] = x[:4] + bytes([v["av"]]) + x[5:]
                out.append(("NetStream.Record.Stop", rid))
        return out

    def files(self):
        have = {}
        for r in range(1, len(self.rs) + 1):
            d = f"{self.ng.dir}/rec/{self.prof}{r}/"
            for f in os.listdir(d):
                if self.tag in f:
                    have[d + f] = open(d + f, "rb").read()
        return have

    def compare(self):
        have = self.files()
        want = {self.path(k): d for k, d in self.exp.items()}
        self.timely()
        for f in set(have) | set(want):
            if f not in have:
                raise Mismatch(f"{self.where}: {f} does not exist, only {sorted(have)}")
            if f not in want:
                raise Mismatch(f"{self.where}: {f} exists ({len(have[f])} bytes)")
            if have[f] != want[f]:
                a, w = have[f], want[f]
                i = next((i for i in range(min(len(a), len(w))) if a[i] != w[i]), min(len(a), len(w)))
                raise Mismatch(f"{self.where}: {os.path.basename(f)} has {len(a)} bytes, specified {len(w)}, they differ at {i}: "
                               f"{a[max(0, i - 4):i + 24].hex()} / {w[max(0, i - 4):i + 24].hex()}")

    def notes(self, s, want):
        x = self.ses[s]
        try:
            got = x["c"].sync()
        except (Closed, Timeout) as err:
            raise Mismatch(f"{self.where}: the session broke: {err!r}")
        got = x["c"].log + got
        x["c"].log = []
        rec = []
        for m in got:
            if m.type == rtmp.CMD:
                v = rtmp.amf_all(m.data)
                if v[0] == "onStatus" and v[-1].get("code", "").startswith("NetStream.Record."):
                    rec.append((v[-1]["code"], v[-1].get("description", "")))
        rec.sort(key=lambda v: v[1])          # recorders are independent of each other
        want = sorted(want, key=lambda v: v[1])
        if rec != want:
            raise Mismatch(f"{self.where}: recording statuses {rec}, specified {want}")
        return got

    # --------------------------------------------------------------- steps
    def connect(self, s, src="127.0.0.1"):
        if src == "127.0.0.1":
            c = rtmp.Conn(("127.0.0.1", self.ng.ports[0]))
        else:
            c = access.SockConn(socket.create_connection(("127.0.0.1", self.ng.ports[0]), source_address=(src, 0)))
        c.log = []
        ver = f"{s}{self.tag}-{self.rnd.random()}"
        c.connect(self.prof, flashVer=ver)
        c.create_stream()
        return {"c": c, "ver": ver}

    def do_publish(self, e):
        s = e["s"]
        x = self.ses[s] = self.connect(s)
        if self.rnd.random() < .5:
            x["c"].set_chunk(self.rnd.choice([128, 1000, 60000]))
        if self.prof == "interval":
            time.sleep(.004)
        x["c"].publish(self.name(e["n"]))
        if e["ok"] == 2:
            try:
                x["g"] = self.gate.asked.get(timeout=8)
            except queue.Empty:
                raise Mismatch(f"{self.where}: on_publish was not called")
            self.notes(s, [])
        else:
            want = self.apply(e)
            got = self.notes(s, want)
            bad = "NetStream.Publish.BadName" in rtmp.statuses(got)
            if bad != (e["ok"] == 0):
                raise Mismatch(f"{self.where}: answered {rtmp.statuses(got)}")
        self.compare()

    def do_denied(self, e):
        if PROFILES[self.prof][1]:
            x = self.connect(e["s"])
            x["c"].publish(self.name(e["n"]))
            g = self.gate.asked.get(timeout=8)
            x["c"].send(VIDEO, self.payload(1, "k", 50), 0)
            x["c"].sync()
            g["code"] = 403
            g["ev"].set()
        else:
            x = self.connect(e["s"], "127.0.0.66")
            x["c"].publish(self.name(e["n"]))
            x["c"].send(VIDEO, self.payload(1, "k", 50), 0)
        try:
            x["c"].wait_closed(8)
        except Timeout:
            raise Mismatch(f"{self.where}: the session was not closed")
        x["c"].close()
        self.compare()

    def do_answer(self, e):
        x = self.ses[e["s"]]
        x["g"]["code"] = 200 if e["ok"] else 403
        x["g"]["ev"].set()
        if not e["ok"]:
            try:
                x["c"].wait_closed(8)
            except Timeout:
                raise Mismatch(f"{self.where}: the session was not closed")
            x["c"].close()
            del self.ses[e["s"]]
        elif e["ok"] == 1:
            try:
                x["c"].wait(lambda m: "NetStream.Publish.BadName" in rtmp.statuses([m]), 8)
            except (Timeout, Closed):
                raise Mismatch(f"{self.where}: the publisher was not refused")
        else:
            self.until(lambda: x["ver"] in self.registry(), "the publisher was not accepted")
            self.notes(e["s"], [])
        self.compare()

    def do_send(self, e):
        x = self.ses[e["s"]]
        d = self.payload(e["m"], e["k"], e["len"])
        if e["k"] in ("vh", "hvh"):
            x["cut"] = e["len"] < 40
        elif x.get("cut") and e["k"] in ("k", "i", "hk", "hi"):
            d = d[:5] + bytes(len(d) - 5)     # the header did not say how long the lengths are: empty NAL units
        self.msg[e["m"]] = (e["k"], d)
        if self.prof == "interval":
            time.sleep(.004)
        x["c"].send(AUDIO if e["k"] in AUDIOS else VIDEO, d, e["ts"])
        self.notes(e["s"], self.apply(e))
        self.compare()

    def do_leave(self, e):
        x = self.ses.pop(e["s"])
        self.apply(e)
        if "g" in x:
            x["g"]["ev"].set()
        if self.rnd.random() < .5:
            x["c"].delete_stream()
            try:
                x["c"].sync()
            except Closed:
                pass
        x["c"].close()
        self.until(lambda: x["ver"] not in self.registry(), "the publisher is still there")
        self.compare()

    def ctl(self, path):
        st, _, body = nginxd.http_get(self.ng.ports[1], path)
        if st != 200:
            raise Mismatch(f"{self.where}: {path} answered {st}")

    def do_manual(self, e):
        rid = f"&rec=r{e['r']}" if e["r"] > 1 else ""
        self.ctl(f"/c/record/{'start' if e['on'] else 'stop'}?srv=default&app={self.prof}&name={self.name(e['n'])}{rid}")
        self.notes(e["s"], self.apply(e))
        self.compare()

    def do_pause(self, e):
        self.ctl(f"/c/pause/publisher?srv=default&app={self.prof}&name={self.name(e['n'])}")

    def do_resume(self, e):
        self.ctl(f"/c/resume/publisher?srv=default&app={self.prof}&name={self.name(e['n'])}")

    def do_tick(self, e):
        self.tick += 1
        self.second()
        self.compare()


class AsanRecordRunner(RecordRunner):
    flavor = "asan"

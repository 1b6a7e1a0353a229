"""Replays behaviours of spec/Notify.tla: RTMP and HTTP-FLV sessions in
applications with callbacks, and the server which answers those callbacks
when and how the behaviour says."""
import hashlib
import json
import queue
import random
import socket
import threading
import time
from urllib.parse import parse_qs, urlsplit

import nginxd
import rtmp
from check import Mismatch
from live import FlvClient
from rtmp import AUDIO, VIDEO

D, U, DU, N = '{"done"}', '{"update"}', '{"done","update"}', '{"none"}'
# name: PubCb, PlayCb, MetaCb, StreamCb, Ignore, Once, Short
PROFILES = {
    "full": (DU, DU, DU, DU, False, False, False),
    "ignore": (D, D, D, D, True, False, False),
    "short": (D, D, N, N, False, True, True),
    "shortig": (DU, D, D, D, True, False, True),
    "pub": (D, N, N, DU, False, True, False),
    "play": (N, DU, D, N, False, True, False),
    "start": ("{}", "{}", "{}", "{}", True, False, False),
}
NAMES = {1: "n", 2: "nn"}
UPDATE = .15
STATUS = {"pub": "NetStream.Publish.Start", "dup": "NetStream.Publish.BadName", "play": "NetStream.Play.Start"}


def consts(p, **kw):
    a, b, c, d, ig, once, short = PROFILES[p]
    return dict(dict(Slots={1, 2, 3}, FlvSlots="{}", Names={1}, PubCb=a, PlayCb=b, MetaCb=c, StreamCb=d, Ignore=ig, Once=once, Short=short,
                     Codes={200, 300, 403, -1}, MaxOps=10**6, Gen=False), **kw)


def conf():
    apps = ""
    for p, cfg in PROFILES.items():
        d = ""
        for name, cb in zip(("on_publish", "on_play", "on_meta", "on_stream"), cfg):
            if cb == N:
                continue
            st = ["start"] + [x for x in ("update", "done") if x in cb]
            d += f" {name} http://127.0.0.1:{{p3}}/{p}{'?own=1' if p in ('pub', 'ignore') else ''} stage={','.join(st)} timeout={'150ms' if cfg[6] else '60s'} update={int(UPDATE * 1000)}ms"
            if p == "play":
                d += " groupid=grp args=xa=1"
            d += ";"
        apps += f"  application {p} {{ live on; wait_key off; {d} ignore_invalid_notify {'on' if cfg[4] else 'off'}; on_meta_once {'on' if cfg[5] else 'off'}; on_meta_type video; }}\n"
    return ("worker_processes 1;\nheader_timeout 60s;\nstream_buckets 2;\nserver_buckets 1;\nevents { worker_connections 512; }\nrtmp {\n server { listen {p0}; serverid s;\n" + apps +
            " }\n}\nhttp {\n access_log off;\n server { listen {p1}; location /sys { sys_stat; } location /pv { pv_state; } }\n"
            " server { listen {p2}; location / { flv_live {p0}; } }\n}\n")


class Hook:
    """The callback server: one thread per connection; requests are queued,
    answers are given by the replay (start) or at once (done, update)."""

    def __init__(self, port):
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", port))
        self.sock.listen(256)
        self.reqs = queue.Queue()
        self.rnd = random.Random(1)
        self.auto = {}      # path -> may updates be answered strangely
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        raw = b""
        while True:
            while b"\r\n\r\n" not in raw:
                try:
                    x = c.recv(65536)
                except OSError:
                    x = b""
                if not x:
                    c.close()
                    return
                raw += x
            head, raw = raw.split(b"\r\n\r\n", 1)
            line = head.split(b"\r\n")[0].decode("latin1")
            u = urlsplit(line.split()[1])
            q = {k: v[0] for k, v in parse_qs(u.query, keep_blank_values=True).items()}
            r = Req(c, u.path, q, line)
            self.reqs.put(r)
            if q.get("act") != "start":
                r.answer(self.rnd.choice([200, 200, 200, 204, 403, 500, -1]), self.rnd)
            r.done.wait()
            if r.closed:
                return

    def stop(self):
        self.sock.close()


class Req:
    def __init__(self, c, path, q, line):
        self.c, self.path, self.q, self.line = c, path, q, line
        self.done = threading.Event()
        self.closed = False

    def answer(self, code, rnd):
        try:
            if code == -1:
                how = rnd.randrange(4)
                if how == 1:
                    self.c.sendall(b"HTTP/1.1 200")
                elif how == 2:
                    self.c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n")
                elif how == 3:
                    self.c.sendall(b"gibberish\r\n\r\n")
                self.close()
                return
            body = b"x" * rnd.choice([0, 0, 1, 200]) if code != 204 else b""
            keep = rnd.random() < .6
            head = f"HTTP/1.1 {code} X\r\n"
            if rnd.random() < .3:
                body = b"".join(b"%x\r\n%s\r\n" % (len(body), body) for _ in range(1) if body) + b"0\r\n\r\n"
                head += "Transfer-Encoding: chunked\r\n"
            elif code != 204 or rnd.random() < .5:
                head += f"Content-Length: {len(body)}\r\n"
            head += "Connection: " + ("keep-alive" if keep else "close") + "\r\n\r\n"
            data = head.encode() + body
            if rnd.random() < .3:
                k = rnd.randrange(1, len(data))
                self.c.sendall(data[:k])
                time.sleep(.003)
                data = data[k:]
            self.c.sendall(data)
            if not keep:
                self.close()
        except OSError:
            self.close()
        self.done.set()

    def close(self):
        self.closed = True
        try:
            self.c.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.c.close()
        self.done.set()


class NotifyRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=4, harness=True, level="error")
        self.hook = Hook(self.ng.ports[3])

    def close(self):
        self.ng.stop()
        self.hook.stop()

    def health(self):
        c = self.ng.crashed()
        if c:
            return c
        if self.ng.workers() != self.ng.worker0:
            return f"the worker was replaced: {self.ng.worker0} -> {self.ng.workers()}"

    def registry(self):
        st, _, body = nginxd.http_get(self.ng.ports[1], "/sys")
        if st != 200:
            raise Mismatch(f"sys_stat answered {st}")
        r = {}
        for srv in json.loads(body.decode("latin1"))["live_stream"]["server_array"]:
            for s in srv.get("stream_array", []):
                for c in s.get("client_array", []):
                    r[c.get("flashver", "")] = ("pub" if c["publishing"] else "play", s["name"], c["id"])
        return r

    def run(self, b):
        self.p = b["profile"]
        log = b["log"]
        h = hashlib.md5(json.dumps(b, sort_keys=True).encode()).hexdigest()
        self.rnd = random.Random(h)
        self.tag = h[:6]
        self.ses = {}
        self.stale = []         # requests nobody waits for any more
        self.streq = {}         # name -> its pending stream request
        self.upd = set()        # who may send updates
        self.live = {}          # clientid -> slot, for sessions which are there
        self.gone = set()       # clientids which are gone
        self.nf = 0
        try:
            for i, e in enumerate(log, 1):
                self.where = f"step {i} {e['a']} {e.get('s', e.get('n', ''))} {e.get('code', '')}"
                may = {tuple(x) for x in e["upd"]} | self.upd
                self.may = may
                getattr(self, "do_" + e["a"])(e, i)
                self.upd = {tuple(x) for x in e["upd"]}
                self.settle(e)
            self.upd = set()
        finally:
            for x in self.ses.values():
                x["c"].close()
            self.ses = {}
            for r in self.stale + list(self.streq.values()):
                r.close()
            self.wait_empty()
        return len(log)

    def wait_empty(self):
        end = time.time() + 5
        while self.registry():
            if time.time() > end:
                raise Mismatch(f"sessions are left after all clients are gone: {self.registry()}")
            time.sleep(.01)
        time.sleep(.02)
        while not self.hook.reqs.empty():       # of the ends just made
            r = self.hook.reqs.get()
            if r.q.get("act") == "start":
                r.close()

    # ------------------------------------------------------------------
    def sname(self, n):
        return NAMES[n] + self.tag

    def expect(self, want, who=None, timeout=5):
        """Exactly the wanted requests (call, act, slot) come, and updates of those who may."""
        want = [tuple(x) for x in want]
        got = {}
        end = time.time() + timeout
        while True:
            try:
                r = self.hook.reqs.get(timeout=max(0, end - time.time()) if want else 0)
            except queue.Empty:
                if want:
                    raise Mismatch(f"{self.where}: callbacks {want} did not come")
                return got
            k = self.classify(r, who)
            if k[1] == "update":
                if (k[0], k[2] if k[0] != "stream" else k[3]) not in self.may:
                    raise Mismatch(f"{self.where}: unexpected {r.line}")
                self.seen.add((k[0], k[2] if k[0] != "stream" else k[3])) if hasattr(self, "seen") else None
                continue
            if k[:3] not in want:
                raise Mismatch(f"{self.where}: unexpected {k} {r.line}; waiting for {want}")
            want.remove(k[:3])
            got[k[:3]] = r

    def classify(self, r, who):
        q = r.q
        if r.path != "/" + self.p or q.get("app") != self.p or ("own" in q) != (self.p in ("pub", "ignore")) \
                or (self.p == "play" and (q.get("groupid"), q.get("xa")) != ("grp", "1")):
            raise Mismatch(f"{self.where}: strange callback {r.line}")
        n = [k for k in NAMES if self.sname(k) == q.get("name")]
        if not n:
            raise Mismatch(f"{self.where}: callback about another stream {r.line}")
        cid = q.get("clientid")
        if cid in self.live:
            slot = self.live[cid]
        elif who is not None and q.get("act") == "start" and cid not in self.gone:
            slot = who
            self.live[cid] = who
        else:
            slot = None
        if slot is not None and self.ses[slot]["n"] != n[0]:
            raise Mismatch(f"{self.where}: callback with another session's name {r.line}")
        return q.get("call"), q.get("act"), slot, n[0]

    def leave_ids(self, s):
        for k in [k for k, v in self.live.items() if v == s]:
            del self.live[k]
            self.gone.add(k)

    def do_come(self, e, i):
        s, name = e["s"], self.sname(e["n"])
        x = {"n": e["n"], "k": e["k"], "want": [], "got": [], "flv": s in FLV, "meta": None, "start": None, "ver": f"pv{self.tag}{i}"}
        self.ses[s] = x
        if x["flv"]:
            x["c"] = FlvClient(self.ng.ports[2], f"/{self.p}/{name}?flashver={x['ver']}")
        else:
            c = x["c"] = rtmp.Conn(("127.0.0.1", self.ng.ports[0]))
            r = c.connect(self.p, flashVer=x["ver"])
            if r[0] != "_result":
                raise Mismatch(f"{self.where}: connect answered {r}")
            c.create_stream()
            c.publish(name) if e["k"] == "publish" else c.play(name)
        rq = self.expect(e["req"], s)
        for k, r in rq.items():
            if k[0] == "stream":
                self.streq[e["n"]] = r
            else:
                x["start"] = r
        if x["start"] is None:
            self.told(x, "play" if e["k"] == "play" else e["reg"][s - 1])

    def told(self, x, what):
        if not x["flv"]:
            x["c"].wait(lambda m: m.type == rtmp.CMD and rtmp.statuses([m]) == [STATUS[what]], 5)

    def do_answer(self, e, i):
        x = self.ses[e["s"]]
        self.check_silent(x)
        if PROFILES[self.p][6]:
            if self.rnd.random() < .3:
                x["start"].answer(-1, self.rnd)
            else:
                self.stale.append(x["start"])       # times out
        else:
            x["start"].answer(e["code"], self.rnd)
        x["start"] = None
        if not e["out"]:
            self.told(x, e["tell"])
            return
        self.out(e, x, f"NetStream.{'Publish' if e['k'] == 'publish' else 'Play'}.Forbidden")

    def out(self, e, x, status=None):
        if not x["c"].wait_closed(5):
            raise Mismatch(f"{self.where}: the session is still connected")
        ms = x["c"].take()
        if status and not x["flv"]:
            st = rtmp.statuses([m for m in ms if m.type == rtmp.CMD])
            if st not in ([], [status]):        # usually the connection is closed before it is sent
                raise Mismatch(f"{self.where}: told {st}, specified {status}")
        self.flush_one(e["s"], x, ms)
        x["c"].close()
        self.retire(x)
        self.expect(e["req"])
        del self.ses[e["s"]]
        self.leave_ids(e["s"])
        self.stream_gone(x["n"])

    def retire(self, x):
        for k in ("start", "meta"):
            if x[k]:
                self.stale.append(x[k])
                x[k] = None

    def stream_gone(self, n):
        if n in self.streq and not any(y["n"] == n for y in self.ses.values()):
            self.stale.append(self.streq.pop(n))

    def check_silent(self, x):
        """A session which waits for its callback has been told nothing."""
        if x["flv"]:
            x["c"].drain()
            ms = x["c"].take()
            if ms or x["c"].started:
                raise Mismatch(f"{self.where}: HTTP player was served before its callback was answered")
            return
        ms = [m for m in x["c"].sync() if m.type in (AUDIO, VIDEO) or rtmp.statuses([m])]
        if ms:
            raise Mismatch(f"{self.where}: got {ms[:3]} before the callback was answered")

    def do_leave(self, e, i):
        s = e["s"]
        self.flush()
        x = self.ses[s]
        self.retire(x)
        if not x["flv"] and self.rnd.random() < .5:
            x["c"].delete_stream()
            if self.rnd.random() < .5:
                x["c"].sync()
        x["c"].close()
        self.expect(e["req"])
        del self.ses[s]
        self.leave_ids(s)
        self.stream_gone(x["n"])

    def do_stale(self, e, i):
        if self.stale:
            self.stale.pop(self.rnd.randrange(len(self.stale))).answer(e["code"], self.rnd)

    def do_frame(self, e, i):
        x = self.ses[e["s"]]
        self.nf += 1
        d = b"\x2e" + b"%s-%d" % (self.tag.encode(), self.nf) * 4
        x["c"].send(AUDIO, d, self.nf * 10)
        x["c"].sync()
        for q in e["to"]:
            self.ses[q]["want"].append(d)
        self.flush()

    def do_header(self, e, i):
        x = self.ses[e["s"]]
        self.nf += 1
        x["c"].send(VIDEO, b"\x17\0\0\0\0\1\x64\0\x1f\xff\xe1\0\x0a\x67\x64\0\x1f\xac\xd9\x40\x50\x05\xbb\1\0\4\x68\xeb\xec\xb2", self.nf * 10)
        rq = self.expect(e["req"], e["s"])
        x["c"].sync()
        for k, r in rq.items():
            if k[1] == "start":
                self.retire_meta(x)
                x["meta"] = r

    def retire_meta(self, x):
        if x["meta"]:
            self.stale.append(x["meta"])
        x["meta"] = None

    def do_metaanswer(self, e, i):
        x = self.ses[e["s"]]
        if PROFILES[self.p][6] and self.rnd.random() < .7:
            self.stale.append(x["meta"])
            if not e["out"]:
                time.sleep(.25)
        else:
            x["meta"].answer(e["code"], self.rnd)
        x["meta"] = None
        if e["out"]:
            self.out(e, x)

    def do_streamanswer(self, e, i):
        self.streq.pop(e["n"]).answer(e["code"], self.rnd)

    def do_tick(self, e, i):
        want = {tuple(x) for x in e["upd"]}
        if not want:
            return
        self.seen = set()
        end = time.time() + 5
        while not want <= self.seen:
            if time.time() > end:
                raise Mismatch(f"{self.where}: no update callback of {want - self.seen}")
            time.sleep(.02)
            self.expect([])
        del self.seen

    def flush_one(self, s, x, ms):
        x["got"] += [m.data for m in ms if m.type == AUDIO]
        if x["got"] != x["want"]:
            raise Mismatch(f"{self.where}: session {s} got {len(x['got'])} frames {x['got'][-3:]}, specified {len(x['want'])} {x['want'][-3:]}")

    def flush(self):
        for s, x in self.ses.items():
            c = x["c"]
            if not x["flv"]:
                ms = c.sync()
                if any(rtmp.statuses([m]) for m in ms):
                    raise Mismatch(f"{self.where}: session {s} was told {rtmp.statuses(ms)}")
                x["got"] += [m.data for m in ms if m.type == AUDIO]
            end = time.time() + 5
            while x["flv"] and len(x["got"]) < len(x["want"]) and time.time() < end:
                c.read_some(.1)
                x["got"] += [m.data for m in c.take() if m.type == AUDIO]
            self.flush_one(s, x, c.take())

    def settle(self, e):
        self.expect([])
        want = {}
        for s, x in self.ses.items():
            r = e["reg"][s - 1]
            if r in ("pub", "play"):
                want[x["ver"]] = (r, f"s/{self.p}/{self.sname(x['n'])}")
        end = time.time() + 5
        while True:
            reg = self.registry()
            got = {k: v[:2] for k, v in reg.items()}
            if got == want:
                for t, x in self.ses.items():
                    if x["ver"] in reg:
                        i = str(reg[x["ver"]][2])
                        if self.live.setdefault(i, t) != t:
                            raise Mismatch(f"{self.where}: client id {i} belongs to sessions {t} and {self.live[i]}")
                break
            if time.time() > end:
                raise Mismatch(f"{self.where}: registry has {got}, specified {want}")
            time.sleep(.01)
        for s, x in self.ses.items():
            x["c"].drain()
            if x["c"].closed:
                raise Mismatch(f"{self.where}: session {s} was closed")


FLV = {5, 6}


class AsanNotifyRunner(NotifyRunner):
    flavor = "asan"

"""Replays behaviours of spec/DynConf.tla: the dynamic configuration file is
edited, and two workers are asked which values are in force."""
import json
import os
import random
import signal
import time

import nginxd
import rtmp
from check import Mismatch

N = 2
REFRESH = 50     # ms
PATIENCE = 5
LOOK = 0.25      # s, in which every worker has had a look at the file
ITEMS = ("i", "s", "m", "v", "l")


def conf():
    return ("worker_processes %d;\ndynamic_conf {dir}/dyn.conf %dms;\nstream_zone buckets=8 streams=512;\n"
            "events { worker_connections 256; multi_listen {p4} {p0}; multi_listen {p8} {p1}; }\n"
            "rtmp { server { listen {p0}; serverid base; application x { live on; } } }\n"
            "http { access_log off; keepalive_timeout 0; server { listen {p1}; location = /pv { pv_state; } location = /sys { sys_stat; } location /c { rtmp_control all; } location / { pv_dyn; } } }\n"
            % (N, REFRESH))


BADS = {
    "unknown": ["nosuch 1;", "http2 { }", "pv_ii 1;"], "brace": ["}"], "args": ["pv_i 1 2;", "pv_s;", "http on { }"],
    "number": ["pv_i abc;", "pv_i -1;", "pv_i '';"], "place": ["pv_m x;", "server_name a;", "server { }", "http { pv_s x; }", "http { server { location / { pv_i 1; } } }"],
    "quote": ['pv_s "abc; ', "pv_s 'a\nb;", 'pv_s "a"b;'], "name": ["http { server { server_name *x; } }", "rtmp { server { server_name .; } }"],
    "init": ["pv_i 666;"], "block": ["http;", "pv_s { }", "rtmp"], "regex": ["http { server { server_name '~('; } }", "rtmp { server { server_name '~('; } }", "http { server { location ~ '(' { } } }"],
    "long": ["pv_s " + "x" * 5000 + ";", "pv_s '" + "y;" * 3000 + "';"], "twice": ["pv_s a; pv_s b;", "pv_i 1; pv_i 1;"],
}
LAST = ("semicolon", "open", "late", "quote", "block")


def text(v, rng):
    """One of the many ways to write a version."""
    def word(w):
        if w == "" or any(c in w for c in " ;{}\\$#\"'") or rng.random() < 0.25:
            q = rng.choice("'\"")
            return q + w.replace("\\", "\\\\") + q
        return w

    def line(*ws):
        s = word(ws[0]) if rng.random() < 0.05 else ws[0]
        for w in ws[1:]:
            s += rng.choice([" ", " ", "  ", "\t", "\n   "]) + word(w)
        return s + rng.choice([";", ";", " ;"]) + note()

    def note():
        r = rng.random()
        if r < 0.7:
            return rng.choice(["\n", " ", ""])
        if r < 0.97:
            return "  # " + rng.choice(["{", "}", "pv_i 7;", "'", "it's; \""]) + "\n"
        return "".join("\n# " + "".join(rng.choice("ab {};\"'\\") for _ in range(rng.choice([100, 1000, 3000]))) for _ in range(rng.randint(1, 4))) + "\n"

    def block(head, items):
        return head + rng.choice([" {", "\n{\n"]) + note() + "".join(items) + "}" + note()

    def mix(items):
        rng.shuffle(items)
        return items

    def servers(svs, f):
        # names are spread over as many directives as one likes
        r = []
        for s in svs:
            ns = list(s["names"])
            rng.shuffle(ns)
            it = []
            while ns:
                k = rng.randint(1, len(ns))
                it.append(line("server_name", *[n.upper() if rng.random() < 0.2 and n[0] != "~" else n for n in ns[:k]]))
                ns = ns[k:]
            r.append(block("server", mix(it + f(s))))
        return r

    def location(l):
        ws = " ".join(filter(None, [l["k"], word(l["p"])]))
        return block("location " + ws, [line("pv_l", l["l"])])

    def locations(s):
        # regular expressions are tried in the order in which they are written
        ls = [location(l) for l in s["locs"]]
        reg = [x for x, l in zip(ls, s["locs"]) if l["k"] == "~"]
        idx = list(range(len(ls)))
        rng.shuffle(idx)
        out = []
        for i in idx:
            out.append(reg.pop(0) if s["locs"][i]["k"] == "~" else ls[i])
        return [line("pv_v", s["v"])] + out if rng.random() < 0.5 else out + [line("pv_v", s["v"])]

    top = []
    if v["i"] != 1000 or rng.random() < 0.5:
        top.append(line("pv_i", str(v["i"])))
    if v["s"] or rng.random() < 0.5:
        top.append(line("pv_s", v["s"]))
    if v["http"]["has"]:
        sv = servers(v["http"]["servers"], lambda s: ["".join(locations(s))])
        sv.insert(rng.randint(0, len(sv)), line("pv_m", v["http"]["m"]))
        top.append(block("http", sv))
    if v["rtmp"]["has"]:
        top.append(block("rtmp", servers(v["rtmp"]["servers"], lambda s: [line("serverid", s["id"])] if s["id"] else [])))
    mix(top)
    if v["bad"] and v["bad"] != "locations":
        b = {"semicolon": ["pv_s x", "pv_s 'x'", "x"], "open": ["http { ", "rtmp { server { ", "http { server { server_name z.z;\n"],
             "late": ["nosuch;"]}.get(v["bad"]) or BADS[v["bad"]]
        b = rng.choice(b)
        k = len(top) if v["bad"] in LAST else rng.randint(0, len(top))
        if b.startswith(("pv_i", "pv_s")) and v["bad"] == "init":
            top = [t for t in top if not t.lstrip("'\"").startswith("pv_i")]
            k = min(k, len(top))
        top.insert(k, b + ("\n" if k < len(top) or rng.random() < 0.5 else ""))
    s = note() + "\n" + "".join(t + "\n" for t in top)
    return s.rstrip("\n") if rng.random() < 0.3 and not s.rsplit("\n", 2)[-2].count("#") else s


class DynRunner:
    flavor = "plain"

    def __init__(self):
        self.ng = None
        self.count = 0

    def open(self, first, rng):
        self.ng = nginxd.Nginx(conf(), flavor=self.flavor, nports=12, harness=True, level="info",
                               files={"dyn.conf": text(first, rng)}, preload={"PV_SWAP": "{dir}/dyn.conf"})
        self.path = self.ng.dir + "/dyn.conf"
        self.killed = set()
        self.web = [self.ng.ports[8] + w for w in range(N)]
        self.rtmp = [("127.0.0.1", self.ng.ports[4] + w) for w in range(N)]

    def close(self):
        if self.ng:
            self.ng.stop()

    def health(self):
        import re
        if not self.ng:
            return None
        log = self.ng.errors()
        for m in re.finditer(r"worker process (\d+) exited on signal (\d+)", log):
            if int(m.group(1)) not in self.killed or m.group(2) != "9":
                return m.group(0)
        m = re.search(r"exited with fatal code|exited with code [1-9]|AddressSanitizer", log)
        return (m.group(0) if m else None) or self.ng.asan() or None

    # ----------------------------------------------------------- what is in force
    def ask(self, w, e):
        st, h, b = nginxd.http_get(self.web[w], e["u"], host=e["d"])
        if st != 200:
            raise Mismatch(f"worker {w + 1} answers {st} to {e['d']}{e['u']}" + (f"; {self.health()}" if self.health() else ""))
        return json.loads(b.decode("latin1"))

    def same(self, got, want):
        return all(str(got[k] if got[k] is not None else "null") == str(want[k]) for k in ITEMS)

    def serverid(self, w, d):
        """Which service a publisher for that domain comes to."""
        self.count += 1
        name = f"n{self.count}x{w}"
        c = rtmp.Conn(self.rtmp[w])
        try:
            c.connect("x", tcurl=f"rtmp://{d}/x")
            c.create_stream()
            c.publish(name)
            c.wait(lambda m: any("Publish.Start" in s for s in rtmp.statuses([m])), 5)
            st, _, b = nginxd.http_get(self.web[w], "/sys")
            for srv in json.loads(b.decode("latin1"))["live_stream"]["server_array"]:
                for s in srv["stream_array"]:
                    if s["name"].endswith("/" + name) or s["name"] == name:
                        return srv["serverid"] if "serverid" in srv else srv["name"]
        finally:
            c.close()
        return None

    def write(self, text):
        p = f"{self.ng.dir}/new.{self.count}"
        self.count += 1
        with open(p, "w", newline="") as f:
            f.write(text)
        return p

    def put(self, p):
        if os.path.isdir(self.path):
            os.rmdir(self.path)
        os.rename(p, self.path)

    # ----------------------------------------------------------- replay
    def run(self, b):
        rng = random.Random(b["seed"])
        if self.ng:
            self.close()
        self.open(b["first"], rng)
        base = None
        log = b["log"]
        for i, e in enumerate(log):
            try:
                getattr(self, "do_" + e["a"])(e, rng)
                if rng.random() < 0.4 or e["a"] == "query":
                    w = rng.randrange(N)
                    got, want = self.serverid(w, e["d"]), e["see"][w]["id"]
                    if got != want:
                        raise Mismatch(f"worker {w + 1}: a publisher for {e['d']} comes to the service {got!r} instead of {want!r}")
                bad = self.health()
                if bad:
                    raise Mismatch(bad)
            except (OSError, rtmp.Closed) as x:
                raise Mismatch(f"step {i} {e['a']}: {x!r}; {self.health()}")
            except Mismatch as x:
                raise Mismatch(f"step {i} {e['a']} (file {e['v']['n']}{' ' + e['v']['bad'] if e['v']['bad'] else ''}, {e['d']}{e['u']}): {x}")
            if i == 1:
                base = self.fds()
        if base:
            self.leak(base)
        return len(log)

    def fds(self):
        return {p: len(os.listdir(f"/proc/{p}/fd")) for p in self.ng.workers()}

    def leak(self, base):
        end = time.time() + 3
        while True:
            now = self.fds()
            more = {p: (base[p], n) for p, n in now.items() if p in base and n > base[p] + 3}
            if not more:
                return
            if time.time() > end:
                raise Mismatch(f"open files of the workers have become more: {more}")
            time.sleep(0.1)

    def settle(self, e, valid, between=None):
        """Until everybody has the new values, each shows the old or the new ones."""
        end = time.time() + PATIENCE
        least = time.time() + (0 if valid else LOOK)
        while True:
            ok = True
            for w in range(N):
                got = self.ask(w, e)
                if self.same(got, e["see"][w]):
                    continue
                ok = False
                if not self.same(got, e["was"][w]) and not (between and self.same(got, between)):
                    raise Mismatch(f"worker {w + 1} shows {got}, which is neither what it had, {e['was'][w]}, nor the new version, {e['see'][w]}")
                if time.time() > end:
                    raise Mismatch(f"worker {w + 1} still shows {got} {PATIENCE} s later instead of {e['see'][w]}")
            if ok and time.time() >= least:
                return
            time.sleep(0.005)

    def do_query(self, e, rng):
        for w in range(N):
            got = self.ask(w, e)
            if not self.same(got, e["see"][w]):
                raise Mismatch(f"worker {w + 1} shows {got} instead of {e['see'][w]}")
            if rng.random() < 0.1:
                nginxd.http_get(self.web[w], f"/c/drop/publisher?srv={rng.choice(['', e['d']])}&app=no&name=no", host=e["d"])

    def do_edit(self, e, rng):
        t = text(e["v"], rng)
        self.put(self.write(t))
        self.settle(e, e["v"]["bad"] == "")
        # and it stays
        if rng.random() < 0.3:
            time.sleep(2.5 * REFRESH / 1000)
            self.do_query(e, rng)

    def control(self, call, ino, new):
        p = f"{self.path}.{call}.{ino}"
        with open(p + ".tmp", "w", newline="") as f:
            f.write(new)
        os.rename(p + ".tmp", p)
        return p

    def consumed(self, p, new, sec=1.0):
        """When nobody gets at the file in the way we waited for, it is just edited."""
        end = time.time() + sec
        while os.path.exists(p):
            if time.time() > end:
                try:
                    os.unlink(p)
                except FileNotFoundError:
                    return
                self.put(self.write(new))
                return
            time.sleep(0.005)

    def do_swap(self, e, rng):
        p = self.write(text(e["v"], rng))
        new = text(e["v2"], rng)
        c = self.control("fstat", os.stat(p).st_ino, new)
        self.put(p)
        self.consumed(c, new)
        self.settle(e, True, e["mid"] if e["v"]["bad"] == "" else None)

    def do_remove(self, e, rng):
        os.unlink(self.path)
        self.settle(e, False)

    def do_dir(self, e, rng):
        os.unlink(self.path)
        os.mkdir(self.path)
        self.settle(e, False)

    def kill(self, w):
        pid = self.pid(w)
        self.killed.add(pid)
        os.kill(pid, signal.SIGKILL)
        end = time.time() + PATIENCE * 2
        while time.time() < end:
            try:
                if self.pid(w) != pid and len(self.ng.workers()) == N:
                    return
            except (OSError, ValueError, Mismatch):
                pass
            time.sleep(0.02)
        raise Mismatch("a killed worker was not replaced" + (f"; {self.health()}" if self.health() else ""))

    def pid(self, w):
        st, _, b = nginxd.http_get(self.web[w], "/p", host="a.x")
        return json.loads(b.decode("latin1"))["pid"]

    def do_respawn(self, e, rng):
        self.kill(e["w"] - 1)
        self.settle(e, True)

    def do_restart(self, e, rng):
        """It is edited again just after the new worker has read it."""
        w = e["w"] - 1
        hold = [f"{self.path}.hold.{self.pid(x)}" for x in range(N)]
        for h in hold:
            open(h, "w").close()
        new = text(e["v2"], rng)
        c = self.control("read", os.stat(self.path).st_ino, new)
        self.kill(w)
        self.consumed(c, new)
        for h in hold:
            os.unlink(h)
        self.settle(e, True, e["mid"])


class AsanDynRunner(DynRunner):
    flavor = "asan"


FIRST = {"n": 1, "bad": "", "i": 1, "s": "first", "http": {"has": False, "m": "", "servers": []}, "rtmp": {"has": False, "servers": []}}


def behaviours(num, seed, depth=30, procs=4):
    import tla
    v = '[n |-> 1, bad |-> "", i |-> 1, s |-> "first", http |-> NoHttp, rtmp |-> NoRtmp]'
    logs = tla.simulate("DynConf", dict(Workers={1, 2}, Versions="{}", First=v, Gen=True, MaxEdits=3), num=num, depth=depth, seed=seed,
                        next="GenNext", procs=procs, timeout=900)
    logs = list({str(l[:-1]): l for l in logs}.values())
    return [{"log": l, "first": FIRST, "seed": seed * 100003 + i} for i, l in enumerate(logs)]

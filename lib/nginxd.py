"""Runs nginx with the modules built from /repo inside a scratch directory."""
import os
import re
import shutil
import signal
import socket
import subprocess
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_built = {}


class BuildError(Exception):
    pass


def build(flavor="plain"):
    if flavor not in _built:
        p = subprocess.run([V + "/bin/build.sh", flavor], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise BuildError(p.stderr[-4000:])
        _built[flavor] = p.stdout.strip().splitlines()[-1]
    return _built[flavor]


def free_ports(n):
    """n ports below the ephemeral range which no other run was given lately."""
    import fcntl
    lo, hi = 10240, 32000
    fd = os.open("/tmp/pv.ports", os.O_RDWR | os.O_CREAT, 0o600)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        cur = int(os.read(fd, 20) or b"0") or lo + int.from_bytes(os.urandom(4), "big") % (hi - lo)
        ports = []
        while len(ports) < n:
            cur = cur + 1 if cur < hi else lo
            ok = True
            for fam, a in ((socket.AF_INET, "0.0.0.0"), (socket.AF_INET6, "::")):
                try:
                    with socket.socket(fam) as s:
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                        s.bind((a, cur))
                except OSError as e:
                    ok = ok and e.errno == 97
            if ok:
                ports.append(cur)
        os.pwrite(fd, b"%-10d" % cur, 0)
    finally:
        os.close(fd)
    return ports


class Nginx:
    """conf: nginx.conf body without load_module lines. {dir} and {pN} are
    substituted (scratch directory, Nth private port)."""

    def __init__(self, conf, flavor="plain", nports=4, ts=False, harness=False, env=None,
                 level="error", files=None, limits=None, wait=True, unpriv_dir=False, preload=None):
        objs = build(flavor)
        self.flavor = flavor
        self.dir = tempfile.mkdtemp(prefix="pv.", dir="/tmp")
        os.chmod(self.dir, 0o755)
        for d in ("logs", "conf", "www"):
            os.makedirs(f"{self.dir}/{d}")
        self.ports = free_ports(nports)
        if os.path.exists("/etc/nginx/mime.types"):
            shutil.copy("/etc/nginx/mime.types", self.dir + "/conf")
        sub = {"dir": self.dir, "objs": objs}
        for i, p in enumerate(self.ports):
            sub[f"p{i}"] = str(p)

        def fill(t):
            return re.sub(r"\{(dir|objs|p\d+)\}", lambda m: sub[m.group(1)], t)
        for name, text in (files or {}).items():
            with open(f"{self.dir}/{name}", "w") as f:
                f.write(fill(text))
        head = ["load_module /usr/lib/nginx/modules/ngx_http_echo_module.so;"] if os.path.exists(
            "/usr/lib/nginx/modules/ngx_http_echo_module.so") else []
        head += [f"load_module {objs}/pingos.so;"]
        if harness:
            head.append(f"load_module {objs}/pv_harness_module.so;")
        if ts:
            head.append(f"load_module {objs}/ngx_http_ts_module.so;")
        head += ["daemon off;", "user root;", f"pid {self.dir}/nginx.pid;", f"error_log {self.dir}/logs/error.log {level};"]
        self.conf = "\n".join(head) + "\n" + fill(conf)
        with open(f"{self.dir}/conf/nginx.conf", "w") as f:
            f.write(self.conf)
        self.env = dict(os.environ)
        if flavor == "asan":
            lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
            self.env["LD_PRELOAD"] = os.path.realpath(lib)
            self.env["ASAN_OPTIONS"] = f"detect_leaks=0:detect_odr_violation=0:abort_on_error=1:disable_coredump=1:log_path={self.dir}/logs/asan"
        else:
            self.env.setdefault("MALLOC_PERTURB_", "165")
        self.env.update(env or {})
        if preload:
            self.env["LD_PRELOAD"] = ":".join(filter(None, [self.env.get("LD_PRELOAD"), objs + "/pv_preload.so"]))
            self.env.update({k: fill(v) for k, v in preload.items()})
        self.limits = limits
        self.start(wait)

    def start(self, wait=True):
        pre = None
        if self.limits:
            import resource

            def pre():
                for k, v in self.limits.items():
                    resource.setrlimit(getattr(resource, k), (v, v))
        self.proc = subprocess.Popen(
            ["/usr/sbin/nginx", "-e", f"{self.dir}/logs/error.log", "-p", self.dir + "/", "-c", f"{self.dir}/conf/nginx.conf"],
            stdout=open(self.dir + "/logs/stdout", "ab"), stderr=subprocess.STDOUT,
            start_new_session=True, cwd=self.dir, env=self.env, preexec_fn=pre)
        if wait:
            self.wait_ready()

    def listening(self):
        out = []
        for host, port in re.findall(r"listen\s+(?:(\S*):)?(\d+)[\s;]", self.conf):
            out.append(("127.0.0.1" if host in ("", "*", "0.0.0.0") else "::1" if host in ("[::]", "[::1]") else host, int(port)))
        return out

    def wait_ready(self):
        end = time.time() + 20
        for at in self.listening():
            while True:
                if self.proc.poll() is not None:
                    raise RuntimeError("nginx did not start:\n" + self.asan() + self.errors()[-3000:] + open(self.dir + "/logs/stdout").read()[-2000:])
                try:
                    socket.create_connection(at, timeout=2).close()
                    break
                except OSError:
                    if time.time() > end:
                        raise RuntimeError("nginx not ready:\n" + self.errors()[-3000:])
                    time.sleep(0.02)
        while not self.workers() and time.time() < end:
            time.sleep(0.02)
        self.worker0 = self.workers()

    def errors(self):
        try:
            with open(self.dir + "/logs/error.log", errors="replace") as f:
                return f.read()
        except OSError:
            return ""

    def workers(self):
        """pids of the worker children of our master."""
        r = []
        try:
            kids = open(f"/proc/{self.proc.pid}/task/{self.proc.pid}/children").read().split()
        except OSError:
            return r
        for k in kids:
            try:
                if b"worker" in open(f"/proc/{k}/cmdline", "rb").read():
                    r.append(int(k))
            except OSError:
                pass
        return sorted(r)

    CRASH = re.compile(r"exited on signal (\d+)|exited with fatal code|worker process \d+ exited with code [1-9]")

    def crashed(self):
        """A description of a worker death or sanitizer report, or None."""
        m = self.CRASH.search(self.errors())
        if m and not getattr(self, "expect_kill", False):
            return "worker process died: " + m.group(0) + self.asan()
        if self.proc.poll() is not None:
            return f"nginx exited with {self.proc.returncode}" + self.asan()
        a = self.asan()
        return a or None

    def asan(self):
        out = ""
        for f in sorted(os.listdir(self.dir + "/logs")):
            if f.startswith("asan"):
                t = open(f"{self.dir}/logs/{f}", errors="replace").read()
                m = re.search(r"ERROR: (AddressSanitizer[^\n]*)", t)
                fr = re.findall(r"#\d+ \S+ in (\w+)", t)[:8]
                out += "; " + (m.group(1) if m else "asan report") + " at " + " < ".join(fr)
        return out

    def reload(self):
        os.kill(self.proc.pid, signal.SIGHUP)

    def stop(self, keep=False, graceful=False):
        if self.proc.poll() is None:
            try:
                os.kill(self.proc.pid, signal.SIGQUIT if graceful else signal.SIGTERM)
                self.proc.wait(8 if not graceful else 20)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        if not keep:
            d = self.dir
            assert d.startswith("/tmp/pv.")
            shutil.rmtree(d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


def http_get(port, path, host="127.0.0.1", headers=None, timeout=5, sock=None):
    """One blocking HTTP/1.0-style request; returns (status, headers, body)."""
    s = socket.create_connection(("127.0.0.1", port), timeout=timeout) if sock is None else sock
    h = "".join(f"{k}: {v}\r\n" for k, v in (headers or {}).items())
    s.sendall(f"GET {path} HTTP/1.1\r\nHost: {host}\r\n{h}Connection: close\r\n\r\n".encode("latin1"))
    b = b""
    while True:
        try:
            x = s.recv(65536)
        except socket.timeout:
            break
        except OSError:
            break
        if not x:
            break
        b += x
    s.close()
    return parse_http(b)


def parse_http(b):
    if b"\r\n\r\n" not in b:
        return 0, {}, b""
    head, body = b.split(b"\r\n\r\n", 1)
    lines = head.split(b"\r\n")
    status = int(lines[0].split()[1])
    hd = {}
    for l in lines[1:]:
        k, _, v = l.partition(b":")
        hd[k.decode("latin1").lower()] = v.strip().decode("latin1")
    if hd.get("transfer-encoding", "") == "chunked":
        body = dechunk(body)
    return status, hd, body


def dechunk(b):
    out = b""
    while b:
        l, sep, rest = b.partition(b"\r\n")
        if not sep:
            break
        try:
            n = int(l.split(b";")[0], 16)
        except ValueError:
            break
        if n == 0:
            break
        out += rest[:n]
        b = rest[n + 2:]
    return out

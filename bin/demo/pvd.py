"""Starts nginx with the modules built in /repo/_build inside a scratch directory."""
import os, re, shutil, signal, socket, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OBJS = os.environ.get("PVD_OBJS") or os.path.join(os.getcwd(), "_build/nginx/objs")


def ports(n):
    ss = [socket.socket() for _ in range(n)]
    for s in ss:
        s.bind(("127.0.0.1", 0))
    r = [s.getsockname()[1] for s in ss]
    for s in ss:
        s.close()
    return r


class Ngx:
    def __init__(self, conf, nports=4, ts=False, env=None, files=None, load=None):
        self.dir = tempfile.mkdtemp(prefix="pvd.", dir="/tmp")
        os.chmod(self.dir, 0o755)
        for d in ("logs", "conf", "www"):
            os.makedirs(f"{self.dir}/{d}")
        self.ports = ports(nports)
        if os.path.exists("/etc/nginx/mime.types"):
            shutil.copy("/etc/nginx/mime.types", self.dir + "/conf")

        def fill(t):
            t = t.replace("{dir}", self.dir)
            for i, p in enumerate(self.ports):
                t = t.replace("{p%d}" % i, str(p))
            return t
        for n, t in (files or {}).items():
            open(f"{self.dir}/{n}", "w").write(fill(t))
        name = open(OBJS + "/pingos.name").read().strip()
        head = ""
        if os.path.exists("/usr/lib/nginx/modules/ngx_http_echo_module.so"):
            head += "load_module /usr/lib/nginx/modules/ngx_http_echo_module.so;\n"
        head += f"load_module {OBJS}/{name}.so;\n"
        if ts:
            head += f"load_module {OBJS}/ngx_http_ts_module.so;\n"
        if load:
            head += f"load_module {load};\n"
        head += f"daemon off; user root; pid {self.dir}/nginx.pid; error_log {self.dir}/logs/error.log error;\n"
        open(f"{self.dir}/conf/nginx.conf", "w").write(head + fill(conf))
        e = dict(os.environ, MALLOC_PERTURB_="165")
        e.update(env or {})
        self.p = subprocess.Popen(["/usr/sbin/nginx", "-e", f"{self.dir}/logs/error.log", "-p", self.dir + "/", "-c", f"{self.dir}/conf/nginx.conf"],
                                  stdout=open(self.dir + "/logs/stdout", "ab"), stderr=subprocess.STDOUT, start_new_session=True, cwd=self.dir, env=e)
        end = time.time() + 20
        for port in [int(x) for x in re.findall(r"listen\s+(?:\S*:)?(\d+)", fill(conf))]:
            while True:
                if self.p.poll() is not None:
                    raise SystemExit("nginx did not start: " + self.errors()[-2000:])
                try:
                    socket.create_connection(("127.0.0.1", port), 2).close()
                    break
                except OSError:
                    if time.time() > end:
                        raise SystemExit("nginx is not ready")
                    time.sleep(.05)

    def errors(self):
        return open(self.dir + "/logs/error.log", errors="replace").read()

    def died(self):
        return "exited on signal" in self.errors() or self.p.poll() is not None

    def stop(self):
        try:
            os.kill(self.p.pid, signal.SIGTERM)
            self.p.wait(8)
        except Exception:
            pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        assert self.dir.startswith("/tmp/pvd.")
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


def get(port, path, host="h", timeout=5, headers=""):
    s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
    s.sendall(f"GET {path} HTTP/1.0\r\nHost: {host}\r\n{headers}\r\n".encode())
    b = b""
    try:
        while True:
            x = s.recv(65536)
            if not x:
                break
            b += x
    except OSError:
        pass
    s.close()
    h, _, body = b.partition(b"\r\n\r\n")
    return (int(h.split()[1]) if h else 0), body


def fail(*a):
    print("FAIL:", *a)
    raise SystemExit(1)

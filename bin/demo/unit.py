"""Compiles unit_mod.c + the given C text as a dynamic module and runs it in a worker."""
import os, subprocess, time
import pvd

D = os.path.dirname(os.path.abspath(__file__))
SRC = "/usr/share/nginx/src/src"


def run(ctext):
    repo = os.getcwd()
    conf = "worker_processes 1;\nevents { worker_connections 64; dynamic_refresh_interval 0; }\nhttp { server { listen {p0}; } }\n"
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="pvd.", dir="/tmp")
    os.chmod(d, 0o777)
    try:
        open(d + "/d.c", "w").write(open(D + "/unit_mod.c").read() + "\n" + ctext)
        inc = [f"{SRC}/{x}" for x in ("core", "event", "event/modules", "os/unix", "http", "http/modules", "http/v2")]
        inc += [pvd.OBJS] + [f"{repo}/modules/{x}" for x in os.listdir(repo + "/modules")]
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", f'-DRESULT="{d}/out"', "-o", d + "/d.so", d + "/d.c"] + ["-I" + x for x in inc], check=True)
        with pvd.Ngx(conf, nports=1, load=d + "/d.so") as ng:
            end = time.time() + 30
            while not os.path.exists(d + "/out") or not open(d + "/out").read():
                if time.time() > end or ng.died():
                    pvd.fail("no answer", ng.errors()[-500:])
                time.sleep(.05)
            time.sleep(.1)
            r = open(d + "/out").read().strip()
            if ng.died():
                pvd.fail("worker died")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r != "ok":
        pvd.fail(r)

"""Runs TLC on the specifications in /verif/spec.

check()    exhaustive model checking of a configuration
simulate() random behaviours of the specification (the history variable `log`)
edges()    one behaviour per transition of the reachable state graph
accepts()  is a recorded trace a behaviour of the specification?
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    ok = False
    generated = distinct = depth = 0
    out = ""
    violated = None
    actions = None


def _val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):      # a TLA+ expression
        return v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(_val(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(_val(x) for x in v) + ">>"
    return str(v)


def _run(module, consts, cfg_lines, args, timeout, extra_files=None, heap="3g", extends=None, body=""):
    """consts are given to TLC as definitions of a generated root module, so
    any TLA+ expression is possible."""
    d = tempfile.mkdtemp(prefix="pvtlc.", dir="/tmp")
    try:
        for f in os.listdir(V + "/spec"):
            if f.endswith(".tla"):
                shutil.copy(f"{V}/spec/{f}", d)
        for n, t in (extra_files or {}).items():
            open(f"{d}/{n}", "w").write(t)
        root = "---- MODULE PvRoot ----\nEXTENDS " + ", ".join([module] + (extends or [])) + ", TLC, Json\n"
        cfg = []
        for k, v in consts.items():
            root += f"pv_{k} == {_val(v)}\n"
            cfg.append(f"CONSTANT {k} <- pv_{k}")
        root += body + "\n====\n"
        open(d + "/PvRoot.tla", "w").write(root)
        open(d + "/PvRoot.cfg", "w").write("\n".join(cfg + cfg_lines) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
               "-metadir", d + "/states", "-noGenerateSpecTE", "-config", "PvRoot.cfg"] + args + ["PvRoot.tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            return None, (o if isinstance(o, str) else o.decode("utf8", "replace"))
        return p.returncode, p.stdout
    finally:
        assert d.startswith("/tmp/pvtlc.")
        shutil.rmtree(d, ignore_errors=True)


def _stats(r, out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
        re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        if m:
            r.generated, r.distinct = map(int, m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))


def check(module, consts, invariants=(), properties=(), constraint=None, spec="Spec", workers=4, timeout=300,
          coverage=True, deadlock=False, symmetry=None, view=None, heap="6g"):
    """Exhaustive check. Raises TlcError if a property fails on the model (that
    is a defect of the specification, not of the code) or TLC breaks."""
    cfg = [f"SPECIFICATION {spec}"]
    cfg += [f"INVARIANT {i}" for i in invariants]
    cfg += [f"PROPERTY {i}" for i in properties]
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    if symmetry:
        cfg.append(f"SYMMETRY {symmetry}")
    if view:
        cfg.append(f"VIEW {view}")
    args = ["-workers", str(workers)]
    if not deadlock:
        args.append("-deadlock")
    if coverage:
        args += ["-coverage", "1"]
    rc, out = _run(module, consts, cfg, args, timeout, heap=heap)
    r = Result()
    r.out = out
    _stats(r, out)
    if rc is None:
        raise TlcError(f"TLC timeout on {module} {consts}: {out[-500:]}")
    if rc != 0 or "No error has been found" not in out:
        raise TlcError(f"TLC failed on {module}: rc={rc}\n" + _err(out))
    r.ok = True
    acts = {}
    for m in re.finditer(r"^<(\w+) line \d+.*?of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)", out, re.M):
        acts[m.group(1)] = acts.get(m.group(1), 0) + int(m.group(4))
    r.actions = acts
    return r


def _err(out):
    i = out.find("Error:")
    j = out.find("The coverage statistics")
    return out[i if i >= 0 else -3000:][:max(0, (j if j > i else len(out)) - i)][:6000]


def _logs(out):
    logs = []
    for line in out.splitlines():
        i = line.find('PVLOG')
        if i >= 0 and line.startswith('"'):
            s = json.loads(line)
            logs.append(json.loads(s[5:]))
    return logs


def simulate(module, consts, num, depth, seed, timeout=120, init="Init", next="Next", constraint=None, procs=1):
    """num random behaviours of exactly depth-1 steps (shorter ones when the
    specification deadlocks are dropped unless they end in Done)."""
    body = f'PvDump == (TLCGet("level") >= {depth}) => PrintT("PVLOG" \\o ToJson(log))\n'
    res = []
    errs = []
    per = (num + procs - 1) // procs

    def one(k):
        cfg = [f"INIT {init}", f"NEXT {next}", "INVARIANT PvDump"]
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        rc, out = _run(module, consts, cfg,
                       ["-simulate", f"num={per}", "-depth", str(depth), "-seed", str((seed * 1000 + k + 1) * 0x9E3779B97F4A7C15 % 2**62), "-workers", "1", "-deadlock"],
                       timeout, body=body)
        l = _logs(out)
        if len(l) < per // 2 and rc is not None:
            errs.append(f"TLC simulation of {module}: rc={rc}\n" + out[-4000:])
        res.append((k, l))
    ths = [threading.Thread(target=one, args=(k,)) for k in range(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise TlcError(errs[0])
    out, seen = [], set()
    for _, l in sorted(res, key=lambda x: x[0]):
        # TLC reports a trace at depth and again one step further
        for b, nxt in zip(l, l[1:] + [None]):
            if nxt is not None and len(nxt) >= len(b) and nxt[:len(b)] == b:
                continue
            h = hashlib.md5(json.dumps(b, sort_keys=True).encode()).digest()
            if h not in seen:
                seen.add(h)
                out.append(b)
    return out


def edges(module, consts, view, timeout=240, init="Init", next="Next", constraint=None, heap="6g"):
    """One behaviour per transition of the reachable graph (states identified
    by `view`): a shortest path to its source followed by the transition.
    Behaviours that are a prefix of another are dropped."""
    body = 'PvEdge == PrintT("PVLOG" \\o ToJson(log\'))\n'
    cfg = [f"INIT {init}", f"NEXT {next}", "ACTION_CONSTRAINT PvEdge", f"VIEW {view}"]
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    rc, out = _run(module, consts, cfg, ["-workers", "1", "-deadlock"], timeout, body=body, heap=heap)
    r = Result()
    _stats(r, out)
    if rc != 0:
        raise TlcError(f"TLC edges of {module}: rc={rc}\n" + out[-3000:])
    logs = _logs(out)
    keyed = {tuple(json.dumps(e, sort_keys=True) for e in l): l for l in logs}
    pref = set()
    for k in keyed:
        for i in range(len(k)):
            pref.add(k[:i])
    return [l for k, l in keyed.items() if k not in pref], r


def accepts(module, consts, trace, spec="TraceSpec", timeout=60, dfs=False):
    """trace: list of JSON records; module's TraceSpec reads Trace from the
    constant Trace (a sequence of records). Returns (accepted, longest prefix)."""
    rc, out = _run(module, consts, [f"SPECIFICATION {spec}", "INVARIANT TraceNotDone"], ["-workers", "1", "-deadlock"], timeout,
                   extra_files={"trace.ndjson": "\n".join(json.dumps(t) for t in trace) + "\n"})
    if rc is None:
        raise TlcError("timeout validating a trace")
    if "Invariant TraceNotDone is violated" in out:
        return True, len(trace)
    if "No error has been found" not in out:
        raise TlcError(out[-3000:])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    return False, int(m.group(1)) - 1 if m else 0


def accept_all(module, consts, hists, timeout=300, workers=4):
    """hists: list of histories, constant H of the module. Returns the indices
    of those for which a state with Accepted is reachable."""
    body = 'PvAcc == Accepted => PrintT("PVACC " \\o ToString(h))\n'
    consts = dict(consts, H='ndJsonDeserialize("trace.ndjson")')
    rc, out = _run(module, consts, ["INIT Init", "NEXT Next", "INVARIANT PvAcc", "VIEW View"], ["-workers", str(workers), "-deadlock"], timeout,
                   extra_files={"trace.ndjson": "\n".join(json.dumps(t) for t in hists) + "\n"}, body=body)
    if rc != 0:
        raise TlcError(f"TLC traces of {module}: rc={rc}\n" + out[-3000:])
    r = Result()
    _stats(r, out)
    return {int(x) - 1 for x in re.findall(r'"PVACC (\d+)"', out)}, r

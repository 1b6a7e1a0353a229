"""Common frame of every check: budget, parallel replay of specification
behaviours against real nginx, confirmation, evidence and verdict."""
import json
import multiprocessing as mp
import os
import random
import sys
import threading
import time
import traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")


class Mismatch(Exception):
    """The code did something the specification does not allow."""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier != "thorough"
        self.rnd = random.Random(self.seed)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_compared": 0,
                    "samples": [], "models": []}
        self.assumptions = []
        self.viol = []
        self.known = {}
        self.errors = []
        self.bg = []

    # ----------------------------------------------------------- models
    def model(self, name, module, consts, **kw):
        """Exhaustive TLC run, in the background."""
        import tla

        def go():
            try:
                r = tla.check(module, consts, **kw)
                self.cov["states"] += r.distinct
                self.cov["transitions"] += r.generated
                idle = [a for a, n in (r.actions or {}).items() if n == 0]
                self.cov["models"].append({"name": name, "distinct": r.distinct, "generated": r.generated, "depth": r.depth,
                                           "actions": r.actions, "never_taken": idle})
            except Exception as e:
                self.errors.append(f"model {name}: {e}")
        t = threading.Thread(target=go)
        t.start()
        self.bg.append(t)

    # ----------------------------------------------------------- replay
    def replay(self, name, behaviours, runner, procs=6, confirm=2, budget=None, minimize=True):
        """runner(behaviours iterator) is a class: Runner() opens the
        environment (lazily), .run(b) replays one behaviour raising Mismatch,
        .health() returns a crash description or None, .close().
        A mismatch only counts when it shows again on a fresh environment."""
        n = len(behaviours)
        if n == 0:
            self.errors.append(f"{name}: no behaviours generated")
            return
        procs = max(1, min(procs, n))
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        nxt = ctx.Value("i", 0)
        deadline = time.time() + (budget or 1e9)

        def work(k):
            r = None
            try:
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= n or (time.time() > deadline and i > 0):
                        break
                    bad = None
                    steps = 0
                    try:
                        if r is None:
                            r = runner()
                        steps = r.run(behaviours[i]) or len(behaviours[i])
                    except Mismatch as e:
                        bad = str(e)
                    except Exception as e:
                        bad = "driver: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + \
                              traceback.format_exc(limit=-3)
                    h = None
                    try:
                        h = r.health() if r is not None else None
                    except Exception as e:
                        h = None
                    if h:
                        bad = (bad + "; " if bad else "") + h
                    q.put((i, bad, steps))
                    if bad:
                        try:
                            if r:
                                r.close()
                        except Exception:
                            pass
                        r = None
            finally:
                try:
                    if r:
                        r.close()
                except Exception:
                    pass
                q.put(None)

        ps = [ctx.Process(target=work, args=(k,)) for k in range(procs)]
        [p.start() for p in ps]
        done, fails, alive, steps = 0, [], procs, 0
        while alive:
            try:
                x = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in ps):
                    break
                continue
            if x is None:
                alive -= 1
                continue
            i, bad, st = x
            done += 1
            steps += st
            if bad:
                fails.append((i, bad))
                if len(fails) >= 12:
                    with nxt.get_lock():
                        nxt.value = n
        [p.join(10) for p in ps]
        [p.kill() for p in ps if p.is_alive()]
        self.cov["traces_validated_against_impl"] += done - len(fails)
        self.cov["steps_compared"] += steps
        self.cov.setdefault("replays", []).append({"name": name, "behaviours": done, "of": n, "steps": steps})
        for b in behaviours[:1]:
            self.cov["samples"].append({"replay": name, "behaviour": json.dumps(b)[:6000]})
        unconf = 0
        for i, bad in sorted(fails)[:6]:
            if self.confirm(runner, behaviours[i], bad, confirm):
                self.violation(f"{name}: {self.last}", {"replay": name, "behaviour": behaviours[i], "mismatch": self.last})
                break
            unconf += 1
        if fails:
            self.cov["unconfirmed_mismatches"] = self.cov.get("unconfirmed_mismatches", 0) + unconf
            self.cov.setdefault("unconfirmed", []).extend(b[:300] for _, b in fails[:3])

    def confirm(self, runner, b, bad, tries):
        """Re-runs a failing behaviour alone on fresh environments."""
        self.last = bad
        for _ in range(tries):
            r = None
            got = None
            try:
                r = runner()
                r.run(b)
            except Mismatch as e:
                got = str(e)
            except Exception as e:
                got = "driver: " + repr(e)
            try:
                h = r.health() if r else None
                if h:
                    got = (got + "; " if got else "") + h
            except Exception:
                pass
            try:
                if r:
                    r.close()
            except Exception:
                pass
            if got:
                self.last = got
                return True
        return False

    # ---------------------------------------------------------- verdict
    def violation(self, what, data=None):
        os.makedirs(V + "/run", exist_ok=True)
        path = f"{V}/run/{self.prop}-{len(self.viol)}.json"
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "data": data}, f, indent=1, default=str)
        self.viol.append(what)
        print(f"VIOLATION property={self.prop} replay={path}")
        print("  " + what[:1500].replace("\n", "\n  "), flush=True)

    def known_finding(self, key, what):
        """A recorded defect (known-findings.jsonl) that shows on this run."""
        if key not in self.known:
            self.known[key] = what
            print(f"KNOWN-FINDING: property={self.prop} {key}: {what}", flush=True)

    def finish(self):
        for t in self.bg:
            t.join()
        self.cov["elapsed_s"] = round(time.time() - self.t0, 1)
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(f"{V}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.viol:
            sys.exit(1)
        if self.errors:
            for e in self.errors:
                print("ERROR", e, file=sys.stderr)
            sys.exit(2)
        print(f"OK {self.prop} states={self.cov['states']} replayed={self.cov['traces_validated_against_impl']} "
              f"steps={self.cov['steps_compared']} in {time.time() - self.t0:.0f}s")
        sys.exit(0)

import slow
from concurrent.futures import ThreadPoolExecutor


def main(c):
    q = c.quick
    m = 6 if q else 8
    for name, kw in [
        ("avk", dict(MaxFrames=m)),
        ("headers", dict(Kinds='{"vh","k","i"}', MaxFrames=m)),
        ("batches", dict(Buf=True, Q=6, Cork=2, M=2, MaxFrames=m)),
        ("two players", dict(Players={1, 2}, Kinds='{"k","i"}', MaxFrames=m - 2)),
        ("republished", dict(MaxPubs=2, Kinds='{"a","k"}', MaxFrames=m - 1)),
    ]:
        c.model(f"Slow/{name}", "Slow", dict(slow.BASE, **kw), invariants=slow.INVARIANTS, workers=2 if q else 4,
                timeout=250 if q else 3000, coverage=name == "republished")
    for prof, kw in [("g_all", dict(Kinds='{"vh","k","i"}')), ("g_ll", dict(Kinds='{"vh","k","i"}', Steps={60})),
                     ("g_pace", dict(Steps={60, 200}, MaxFrames=m - 2 if q else m - 1)), ("g_few", dict(MaxPubs=2, Kinds='{"a","k"}', MaxFrames=m - 2))]:
        c.model(f"SlowGop/{prof}", "SlowGop", slow.gconsts(prof, **dict(dict(Players={1}, Q=4, CT=100, MaxFrames=m - 1), **kw)),
                invariants=slow.GINVARIANTS, workers=2 if q else 4, timeout=250 if q else 3000, spec="SpecS", coverage=False)
    n = 5 if q else 60
    jobs = []
    for prof in slow.PROFILES:
        for size in slow.QS:
            jobs.append((prof, size, dict()))
        # queues which fill with what is most and least important
        jobs.append((prof, 7, dict(mix="k k k a ah i")))
        jobs.append((prof, 12, dict(mix="i i i i i i i a k", Steps={0, 33}, flv=(2, 3))))
    if not q:
        jobs += [(p, 7, dict(mix="hh k i a hh", flv=())) for p in slow.PROFILES if p not in slow.GPROFILES]

    def gen(j):
        f = slow.gbehaviours if j[0] in slow.GPROFILES else slow.behaviours
        return f(j[0], j[1], n, 80 if q else 150, c.seed * 1000 + jobs.index(j), **j[2])
    with ThreadPoolExecutor(4) as ex:
        bs = [b for r in ex.map(gen, jobs) for b in r]
    c.replay("slow players", bs, slow.SlowRunner, procs=8)
    c.replay("slow players, address sanitizer", bs[::4] if q else bs, slow.AsanSlowRunner, procs=8)

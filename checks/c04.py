import gop
from concurrent.futures import ThreadPoolExecutor


def main(c):
    n = 1 if c.quick else 8
    big = not c.quick
    m = 6 if big else 5
    for name, prof, kw in [
        ("all", "all", dict(CT=100, MaxFrames=m, Kinds='{"a","vh","k","i"}', Q=4)),
        ("ring", "all", dict(CT=100, MaxFrames=m, Kinds='{"a","k","i"}', Q=4)),
        ("two", "all", dict(CT=100, MaxFrames=m - 1, Kinds='{"vh","k","i"}', Q=5, Pubs={1, 2})),
        ("pace", "pace", dict(CT=100, MaxFrames=m, Kinds='{"vh","k","i"}', Q=6, Steps={60, 200})),
        ("ll", "ll", dict(CT=100, MaxFrames=m + 1, Kinds='{"ah","k","i"}', Q=5, Steps={60})),
    ]:
        c.model(f"Gop/{name}", "Gop", gop.consts(prof, **kw), invariants=gop.INVARIANTS, workers=2 if c.quick else 4,
                timeout=200 if c.quick else 3000, coverage=False, view="View", constraint="Small")
    jobs = []
    for prof in gop.PROFILES:
        for q in gop.QS:
            jobs.append((prof, q, dict(T0=[0, 1000, 16776000][len(jobs) % 3])))
            if q != 12:
                jobs.append((prof, q, dict(T0=30000, Steps={0, 40, 200, 700, 4000, 12000, -300, -13000})))
            jobs.append((prof, q, dict(mix="a a a a a ah m i", Steps={20, 90})))
            jobs.append((prof, q, dict(mix="a " * 15 + "i " * 25 + "vh ah k", Steps={33})))
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda j: gop.behaviours(j[0], j[1], 2 * n, 90 if c.quick else 160, c.seed * 1000 + jobs.index(j), flv=[6],
                                                  procs=1, **j[2]), jobs))
    bs = [b for r in rs for b in r]
    c.replay("GOP cache", bs, gop.GopRunner, procs=8)
    c.replay("GOP cache, address sanitizer", bs[::4] if c.quick else bs, gop.AsanGopRunner, procs=8)

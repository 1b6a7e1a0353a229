import tla
import unit


def main(c):
    q = c.quick
    c.model("Map", "Map", dict(K=3, N=3, Depth=5 if q else 7, Gen=False), invariants=["LastStored", "Injective", "Sized"], workers=4,
            timeout=2000)
    bs, r = tla.edges("Map", dict(K=3 if q else 4, N=3, Depth=50, Gen=True), "View", timeout=600)
    c.cov["models"].append({"name": "Map/edges", "distinct": r.distinct, "generated": r.generated})
    for e in bs:
        pass
    bs = [{"kind": "map", "K": 3 if q else 4, "log": l} for l in bs]
    for k, n, d, m in [(3, 4, 100, 20), (8, 10, 250, 40), (40, 45, 700, 16)]:
        bs += [{"kind": "map", "K": k, "log": l} for l in
               tla.simulate("Map", dict(K=k, N=n, Depth=100000, Gen=True), m * (1 if q else 10), d, c.seed + k, next="GenNext", procs=4,
                            timeout=600)]
    c.replay("map operations", bs, unit.UnitRunner, procs=6)
    c.replay("map operations, address sanitizer", bs[::3], unit.AsanUnitRunner, procs=6)

import tla
import zone

INV = ["Conserved", "OneEntry", "RightBucket", "Counted", "NoDeadlock", "Gone"]


def main(c):
    q = c.quick
    c.model("Zone", "Zone", dict(Slots={0, 1}, Names={1, 2, 3}, Cap=2, MaxOps=10**6, Gen=False), invariants=["Bounded"],
            properties=["OnlyOwner"], view="View", workers=1)
    for k, (s, n, nb, cap, m) in enumerate([({0, 1}, {1, 2}, 1, 2, 5), ({0, 1}, {1, 2, 3}, 2, 2, 3), ({0, 1, 2}, {1, 2}, 1, 1, 3)] +
                                           ([] if q else [({0, 1}, {1, 2, 3}, 1, 2, 6), ({0, 1, 2}, {1, 2, 3}, 2, 2, 4)])):
        c.model(f"ZoneImpl/{k}", "ZoneImpl", dict(Slots=s, Names=n, NB=nb, Cap=cap, MaxOps=m), invariants=INV,
                properties=["Refines", "OwnerFrees", "Answer"], workers=2, timeout=3000)
    c.model("ZoneImpl/live", "ZoneImpl", dict(Slots={0, 1}, Names={1, 2}, NB=1, Cap=1, MaxOps=3), spec="FairSpec", properties=["Finish"],
            workers=2, timeout=3000)
    m = 1 if q else 8
    bs = []
    for nb, cap, n, s, d, k in [(1, 3, 5, 3, 120, 12), (2, 6, 8, 4, 300, 12), (7, 40, 60, 5, 900, 6), (64, 1000, 30, 4, 400, 6)]:
        bs += [{"conf": (nb, cap), "names": n, "log": l} for l in
               tla.simulate("Zone", dict(Slots=set(range(s)), Names=set(range(1, n + 1)), Cap=cap, MaxOps=10**6, Gen=True), k * m, d, c.seed + nb,
                            next="GenNext", procs=2, timeout=600)]
    cs = []
    for nb, cap, n in [(1, 10, 3), (2, 3, 5), (1, 2, 3)]:
        ls = tla.simulate("Zone", dict(Slots={0, 1, 2, 3}, Names=set(range(1, n + 1)), Cap=cap, MaxOps=10**6, Gen=True), 96 * m, 40, c.seed + nb,
                          next="GenNext", procs=2, timeout=600)
        cs += [{"conf": (nb, cap), "names": n, "logs": ls[i:i + 32]} for i in range(0, len(ls), 32)]
    c.replay("operations of any process", bs, zone.ZoneRunner, procs=4)
    c.replay("operations, address sanitizer", bs[::3], zone.AsanZoneRunner, procs=3)
    c.replay("concurrent operations", cs, zone.ConcRunner, procs=2)

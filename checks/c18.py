import control
import tla

S = dict(Slots={1, 2, 3}, FlvSlots="{}", Srvs={1, 2}, Apps={1, 3}, Names={1, 2}, Addrs={1, 2}, Pris={0}, Kick={3}, MaxOps=3, Gen=False)
G = dict(Slots=set(range(1, 8)), FlvSlots=control.FLV, Srvs={1, 2}, Apps={1, 2, 3}, Names={1, 2}, Addrs={1, 2, 3}, Pris={0, 1, 5}, Kick={3}, MaxOps=10**6, Gen=True)


def main(c):
    q = c.quick
    inv = ["Exact", "UniquePri", "OnlyPubs"]
    c.model("Control/select", "Control", S, invariants=inv, workers=4, timeout=900, coverage=False, view="View")
    c.model("Control/effect", "Control", dict(S, Slots={1, 2}, Srvs={1}, Apps={3}, Names={1}, Addrs={1}, MaxOps=10**6), invariants=inv,
            properties=["Undisturbed"], workers=2, timeout=900, coverage=False, view="View")
    if not q:
        c.model("Control/effect3", "Control", dict(S, Srvs={1}, Apps={1, 3}, Names={1}, Addrs={1}, Pris={0, 1}, MaxOps=10**6), invariants=inv,
                properties=["Undisturbed"], workers=4, timeout=3000, coverage=False, view="View")
    n = 1 if q else 10
    bs = [{"log": l} for l in tla.simulate("Control", G, 120 * n, 90, c.seed, next="GenNext", procs=4, timeout=600)]
    c.replay("control requests", bs, control.ControlRunner, procs=6)
    c.replay("address sanitizer", bs[::8], control.AsanControlRunner, procs=4)

import access
import tla

S = dict(DB=1, W4=1, W6=1, Srvs={1}, Apps={1}, Names={1}, Slots={1}, MaxRules=1, Levels='{"main","srv","app"}', Protos='{"rtmp"}', Dynamic=False,
         MaxOps=0, Gen=False)
G = dict(DB=8, W4=4, W6=16, Srvs={1, 2}, Apps={1, 2, 3}, Names={1, 2}, Slots={1, 2, 3, 4, 5, 6}, MaxRules=1, Levels="{}",
         Protos='{"rtmp","flv","ts","hls"}', Dynamic=True, MaxOps=10**6, Gen=True)


def main(c):
    q = c.quick
    inv = ["Same", "MappedSame"]
    c.model("Access/levels", "Access", S, invariants=inv, workers=1, timeout=300, coverage=False)
    c.model("Access/order", "Access", dict(S, MaxRules=2, Levels='{"app"}'), invariants=inv, workers=1, coverage=False)
    c.model("Access/sessions", "Access", dict(S, Levels='{"app"}', Dynamic=True, Slots={1, 2}, Apps={1, 2}, Protos='{"rtmp","flv"}', MaxOps=10**6),
            invariants=["OnlyAllowed"], properties=["Undisturbed"], view="View", workers=2, timeout=300)
    if not q:
        c.model("Access/prefix", "Access", dict(S, DB=2, W4=1, W6=2, Levels='{"srv","app"}'), invariants=inv, workers=1, timeout=3000, coverage=False)
        c.model("Access/order2", "Access", dict(S, MaxRules=2, Levels='{"srv","app"}'), invariants=inv, workers=1, timeout=3000, coverage=False)
    n = 1 if q else 10
    bs = [{"log": l} for l in tla.simulate("Access", G, 120 * n, 70, c.seed, next="GenNext", procs=4, timeout=600)]
    c.replay("clients of every family and protocol", bs, access.AccessRunner, procs=6)
    c.replay("address sanitizer", bs[::12], access.AsanAccessRunner, procs=4)

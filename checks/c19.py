import route
import tla

H = '{<<"b">>, <<"c","a">>, <<"b","c">>, <<"a">>, <<"a","b">>, <<"b","a">>, <<"a","b","a">>, <<"b","b">>, <<"a","a","b">>, <<"c","a","b">>}'
S = dict(Ports={1}, Ips={0, 1, 2}, Families={4}, NSrv=2, MaxListen=2, MaxNames=0, Labels='{"a"}', Hosts='{<<"a">>}', Apps='{"x"}', Names={1}, Slots={1},
         Binds=True, Dynamic=False, MaxOps=0, Gen=False)
G = dict(S, Ports={1, 2}, Families={4, 6}, NSrv=1, MaxListen=1, Labels='{"a","b","c"}', Hosts=H, Apps='{"x","xy","y","z"}', Names={1, 2}, Slots={1, 2, 3, 4, 5, 6},
         Binds=False, Dynamic=True, MaxOps=10**6, Gen=True)


def main(c):
    q = c.quick
    inv = ["AddrSame", "Bound", "Deserved"]
    c.model("Route/addresses", "Route", S, invariants=inv, workers=1, timeout=300, coverage=False)
    c.model("Route/names", "Route", dict(S, Ips={0}, Hosts='{<<"a">>, <<"a","b">>, <<"b","a","b">>}', Labels='{"a","b"}', MaxListen=1, MaxNames=1 if q else 2),
            invariants=inv + ["ExactWins"], workers=1, timeout=3000, coverage=False)
    c.model("Route/sessions", "Route", dict(S, Ips={0, 1}, MaxListen=1, Labels='{"a"}', Hosts='{<<"a">>, <<"a","a">>}', MaxNames=1, Slots={1, 2}, Dynamic=True,
                                            MaxOps=10**6, Binds=False),
            invariants=["Apart", "OnePublisher"], properties=["Undisturbed"], view="View", workers=4, timeout=300)
    if not q:
        c.model("Route/addresses3", "Route", dict(S, NSrv=3, MaxListen=1, Ips={0, 1, 2}), invariants=inv, workers=1, timeout=3000, coverage=False)
        c.model("Route/names3", "Route", dict(S, NSrv=3, Ips={0}, Hosts='{<<"a">>, <<"a","b">>, <<"b","a","b">>}', Labels='{"a","b"}', MaxListen=1, MaxNames=1),
                invariants=inv + ["ExactWins"], workers=1, timeout=3000, coverage=False)
    n = 1 if q else 10
    bs = [{"log": l} for l in tla.simulate("Route", G, 160 * n, 50, c.seed, next="GenNext", procs=4, timeout=600)]
    c.replay("configurations and clients", bs, route.RouteRunner, procs=6)
    c.replay("address sanitizer", bs[::10], route.AsanRouteRunner, procs=4)

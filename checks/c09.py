import mesh
import tla


def main(c):
    q = c.quick
    props = dict(invariants=["NamedIds", "OneFeed", "NoSelf", "Settled"], properties=["Settles"], workers=4, coverage=False, spec="Spec")
    c.model("Mesh 3 workers", "Mesh", dict(N=3, P=1, MaxOps=5 if q else 7, MaxDies=1 if q else 2, Gen=False), timeout=300 if q else 3000, **props)
    c.model("Mesh 2 workers", "Mesh", dict(N=2, P=2, MaxOps=6 if q else 9, MaxDies=2, Gen=False), timeout=300 if q else 3000, **props)
    bs = []
    for i, (dies, n) in enumerate([(0, 14), (2, 22)] if q else [(0, 400), (2, 600)]):
        g = dict(N=mesh.N, P=2, MaxOps=10**6, MaxDies=dies, Gen=True)
        ls = tla.simulate("Mesh", g, n, 60, c.seed + i, init="Init", next="GenNext", procs=4, timeout=600)
        bs += [{"log": l} for l in {str(l[:-1]): l for l in ls}.values()]
    c.replay("clusters", bs, mesh.MeshRunner, procs=8)
    c.replay("address sanitizer", bs[::5], mesh.AsanMeshRunner, procs=6)

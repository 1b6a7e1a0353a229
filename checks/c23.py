import cluster


def main(c):
    q = c.quick
    c.model("Cluster", "Cluster", dict(Workers="{0, 1}", Slots="0..3", MaxProc=6 if q else 8, MaxOps=6 if q else 9, Gen=False),
            invariants=["Addresses", "Table", "Meant"], properties=["Once"], view="View", workers=3, timeout=300 if q else 3000, coverage=False)
    bs = cluster.behaviours(120 if q else 2500, c.seed)
    c.replay("cluster", bs, cluster.ClusterRunner, procs=5)
    c.replay("many workers", cluster.behaviours(12 if q else 200, c.seed, 30, 12), cluster.BigClusterRunner, procs=2)
    c.replay("address sanitizer", bs[::6], cluster.AsanClusterRunner, procs=3)

import alive


def main(c):
    q = c.quick
    k = dict(P=3, T=2, I=3, H=3, L=1, Margin=1) if q else dict(P=5, T=3, I=5, H=4, L=2, Margin=1)
    for n, who in enumerate(('{"pub", "sub"}', '{"req", "mute"}', '{"hs"}')):
        c.model("Alive " + who, "Alive", dict(k, Who=who), invariants=["Silent", "Idle", "Given", "Right", "Spared", "Reason"], view="AView", workers=2, timeout=300 if q else 3000, coverage=False)
    bs = alive.behaviours(260 if q else 6000, c.seed)
    g = alive.groups(bs)
    c.replay("sessions in real time", g, alive.AliveRunner, procs=10, minimize=False)
    c.replay("address sanitizer", g[::8], alive.AsanAliveRunner, procs=6, minimize=False)

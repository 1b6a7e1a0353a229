import relay
import tla


def main(c):
    q = c.quick
    g = dict(P=2, Fails='{"f"}', Gen=False, MaxOps=0)
    props = dict(invariants=["Types", "Tried", "Released"], properties=["Pause", "Connected"], workers=8, coverage=True, spec="FairSpec")
    c.model("Relay push", "Relay", dict(g, Kinds='<<"push", "push">>', NUrls="<<1, 2>>"), timeout=800, **props)
    c.model("Relay pull", "Relay", dict(g, Kinds='<<"pull">>', NUrls="<<2>>"), timeout=800, **props)
    c.model("Relay push and pull", "Relay", dict(g, Kinds='<<"push", "pull">>', NUrls="<<1, 2>>"), timeout=800, **dict(props, coverage=False))
    if not q:
        c.model("Relay push, 3 backups", "Relay", dict(g, Kinds='<<"push", "push">>', NUrls="<<3, 2>>"), timeout=3000, **dict(props, coverage=False))
        c.model("Relay pull, 3 backups", "Relay", dict(g, Kinds='<<"pull">>', NUrls="<<3>>", P=3), timeout=3000, **dict(props, coverage=False))
    for kind, urls, n in (("push push", "<<1, 2>>", 12), ("pull", "<<2>>", 24), ("push pull", "<<1, 2>>", 20)):
        kinds = "<<" + ", ".join(f'"{k}"' for k in kind.split()) + ">>"
        g = dict(Kinds=kinds, NUrls=urls, P=2, Fails='{"close", "silent", "error"}', Gen=True, MaxOps=10**6)
        ls = tla.simulate("Relay", g, n if q else 20 * n, 45, c.seed, init="Init", next="GenNext", procs=4, timeout=600)
        bs = [{"log": l, "kind": kind} for l in {str(l[:-1]): l for l in ls}.values()]
        c.replay(kind, bs, relay.RelayRunner, procs=8)
        c.replay(f"{kind}, address sanitizer", bs[::6], relay.AsanRelayRunner, procs=6)

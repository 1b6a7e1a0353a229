import dynconf


def main(c):
    q = c.quick
    v = '[n |-> %d, bad |-> "%s", i |-> %d, s |-> "", http |-> NoHttp, rtmp |-> NoRtmp]'
    vs = "{" + ", ".join([v % (2, "", 2), v % (3, "x", 3)] + ([] if q else [v % (4, "", 4)])) + "}"
    c.model("DynConf", "DynConf", dict(Workers={1, 2}, Versions=vs, First=v % (1, "", 1), Gen=False, MaxEdits=3 if q else 4),
            invariants=["Whole"], properties=["Kept", "Newest"], workers=2, timeout=300 if q else 3000, coverage=False, spec="Spec")
    bs = dynconf.behaviours(130 if q else 3000, c.seed)
    c.replay("edits", bs, dynconf.DynRunner, procs=6)
    c.replay("address sanitizer", bs[::5], dynconf.AsanDynRunner, procs=4)

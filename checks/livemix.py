"""The replay mixes of spec/Live.tla used by C01, C02, C03 and C25."""
import live

K = {"avc": '{"a","ah","k","i","vh","m","x"}', "hevc": '{"a","ah","k","i","hh","m"}', "plain": '{"a","k","i","m"}'}


def models(c, which):
    """Exhaustive runs of the model; sizes in DESIGN.md."""
    big = not c.quick
    confs = {
        "waitv": ("waitv", dict(Sess="1..2", Kinds='{"k","i","a","vh"}', MaxFrames=4 if big else 3)),
        "interv": ("waitv", dict(Sess="1..2", Kinds='{"k","i","a","vh"}', MaxFrames=4 if big else 3, Interleave=True)),
        "inter": ("inter", dict(Sess="1..2", Kinds='{"k","i","a","hh"}', MaxFrames=4 if big else 3)),
        "pri": ("default", dict(Sess="1..4" if big else "1..3", Kinds='{"i","k"}' if not big else '{"k"}', MaxFrames=2, Pris="{0,1}")),
        "names": ("default", dict(Sess="1..3", Kinds='{"k"}', MaxFrames=3 if big else 2, Names="{1,2}")),
        "noidle": ("noidle", dict(Sess="1..3", Kinds='{"k","i"}', MaxFrames=3 if big else 2, FlvSess="{3}")),
        "flv": ("restart", dict(Sess="1..3", Kinds='{"k","a","m"}', MaxFrames=3 if big else 2, FlvSess="{2,3}")),
    }
    for w in which:
        prof, kw = confs[w]
        c.model(f"Live/{w}", "Live", live.consts(prof, **kw), invariants=live.INVARIANTS, workers=2 if c.quick else 4,
                timeout=150 if c.quick else 3000, coverage=False)


def rand(c, profs, kinds, num, depth, procs=2, **kw):
    """Random behaviours of the given profiles and kind sets."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(p, k) for p in profs for k in kinds]
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda j: live.behaviours(j[0], num, depth, c.seed * 100 + jobs.index(j), procs=procs, Kinds=K[j[1]], **kw), jobs))
    return [b for r in zip_longest(*rs) for b in r if b]


def zip_longest(*a):
    import itertools
    return itertools.zip_longest(*a)


def every(profile, **kw):
    """One behaviour per transition of the reachable graph."""
    import tla
    flv = kw.pop("flv", [])
    bs, r = tla.edges("Live", live.consts(profile, Gen=True, **dict(kw, FlvSess=set(flv))), "GView")
    return [{"profile": profile, "flv": flv, "log": l} for l in bs]

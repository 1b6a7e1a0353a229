import record
import tla
from record import PROFILES, rec

INV = ["Owner", "Ordered", "HeadOnce", "Decodable", "Complete", "Clock", "Limits", "Mask", "Single"]
MIX = {
    "aac": '<<"ah","a","a","a","m3">>',
    "avc": '<<"ah","a","a","a","vh","k","k","i","i","i">>',
    "hevc": '<<"a","ah","hvh","hk","hi","hi","m3">>',
    "old": '<<"m3","sk","si","si">>',
    "wild": '<<"ah","a","m3","vh","k","i","hvh","hk","hi","sk","si">>',
}
ALL = '{"ah","a","m3","vh","k","i","hvh","hk","hi","sk","si"}'
# one recorder at a time, every behaviour; (recorder, asynchronous)
VARIANTS = {
    "all": (rec(), False),
    "audio": (rec(v=False), False),
    "video": (rec(a=False), False),
    "key frames": (rec(a=False, v=False, kf=True), False),
    "audio and key frames": (rec(v=False, kf=True), False),
    "append": (rec(ap=True), False),
    "append, frames": (rec(ap=True, mf=2), False),
    "frames": (rec(mf=2), False),
    "size": (rec(ms=60), False),
    "manual": (rec(man=True), False),
    "manual, append": (rec(man=True, ap=True), False),
    "interval": (rec(int=1), False),
    "unique": (rec(un=True), False),
    "unwritable": (rec(bad=True), False),
    "asynchronous": (rec(), True),
    "asynchronous, append": (rec(ap=True), True),
}


def rand(c, num, depth, profiles=PROFILES, procs=4):
    out = []
    for i, p in enumerate(profiles):
        for j, (mn, mix) in enumerate(MIX.items()):
            k = record.consts(p, Slots={1, 2, 3}, Names={1, 2}, Kinds=ALL, Lens={6, 200, 5000}, Steps="{0, 7, 40, 300000, 20000000" + ("}" if i % 2 else ", -11}"),
                              MaxFrames=10 ** 6, Mix=mix, Gen=True)
            out += [{"profile": p, "log": l} for l in tla.simulate("Record", k, num if mn != "wild" else num // 2 + 1, depth, c.seed + 10 * i + j, next="GenNext", procs=procs, timeout=600)]
    return out


def main(c):
    q = c.quick
    for n, (r, asy) in VARIANTS.items():
        kinds = '{"ah","a","vh","k","i"}'
        k = record.consts_of([r], asy, Slots={1, 2}, Names={1}, Lens={6}, Steps={5}, Mix="<<>>", Gen=False, MaxTick=1 if r["un"] else 0,
                             Kinds=kinds, MaxFrames=10, MaxLevel=6 if q else 9)
        c.model("Record/" + n, "Record", k, invariants=INV, view="View", constraint="Bound", workers=2 if q else 8, timeout=3000, coverage=False)
    bs = rand(c, 2 if q else 12, 50 if q else 70)
    c.replay("recordings", bs, record.RecordRunner, procs=8)
    c.replay("address sanitizer", bs[::6], record.AsanRecordRunner, procs=4)

import chunks


def behaviours(c, num, depth):
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(s, tf, ty) for s in chunks.SCALES for tf in (True, False) for ty in ('{"a","v"}', '{"a","v","g"}')]
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(lambda j: chunks.behaviours(num, depth, c.seed * 1000 + jobs.index(j), j[0], types=j[2], timefix=j[1], procs=1), jobs))
    return [b for t in zip(*rs) for b in t]


def main(c):
    n = 1 if c.quick else 12
    for tf in (True, False):
        c.model(f"Chunk/fix={tf}", "Chunk", dict(Cs="1..2", Lens="1..3", ChunkSizes="1..2" if c.quick else "1..3", Types='{"v","g"}', Steps="{0,1,3}", EXT=3,
                MOD=100, MaxMsgs=2 if c.quick else 3, TimeFix=tf, Aborts=True, Gen=False), invariants=["WellFormed", "Faithful"],
                workers=1 if c.quick else 4, timeout=150 if c.quick else 3000, coverage=False)
    bs = behaviours(c, 60 * n, 60 if c.quick else 120)
    for i, b in enumerate(bs):
        b["end"] = [None, None, "maxmsg", "big", "csid"][(i // 12) % 5]
    k = len(bs) // 3
    fz = [dict(b, fuzz=c.seed * 1000000 + i) for i, b in enumerate(bs[k:] + (bs if not c.quick else []))]
    c.replay("chunk streams", bs[:2 * k], chunks.ChunkRunner, procs=8)
    c.replay("chunk streams, ASan", bs[2 * k:], chunks.AsanChunkRunner, procs=8)
    c.replay("malformed chunk streams, ASan", fz, chunks.AsanChunkRunner, procs=8)

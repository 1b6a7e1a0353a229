import mux


def main(c):
    n = 1 if c.quick else 12
    for ch, fx in ((1, True), (2, False)) if c.quick else ((1, True), (1, False), (2, True), (2, False), (3, True)):
        c.model(f"Mux/chunk={ch}", "Mux", dict(P="{1}", Chunk=f"<<{ch}>>", Fix=[fx], Merge="<<2>>", Lens="1..3" if c.quick else "1..4", Times="{0,5}",
                Types='{"a"}', EXT=3, MaxMsgs=3, Cap=4, Gen=False), invariants=["Decodes", "Nothing"], workers=2 if c.quick else 4,
                timeout=150 if c.quick else 3000, coverage=False)
    if not c.quick:
        c.model("Mux/two", "Mux", dict(P="1..2", Chunk="<<1,2>>", Fix="<<TRUE,FALSE>>", Merge="<<1,2>>", Lens="{1,3}", Times="{0,5}", Types='{"a"}',
                EXT=3, MaxMsgs=2, Cap=3, Gen=False), invariants=["Decodes", "Nothing"], workers=4, timeout=3000, coverage=False)
    bs = mux.behaviours(420 * n, 120, c.seed)
    k = len(bs) * 2 // 3
    c.replay("outbound chunk streams", bs[:k], mux.MuxRunner, procs=12)
    c.replay("outbound chunk streams, ASan", bs[k:], mux.AsanMuxRunner, procs=12)

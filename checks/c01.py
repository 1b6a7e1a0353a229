import live
import livemix
from livemix import rand


def main(c):
    n = 1 if c.quick else 8
    livemix.models(c, ["waitv", "interv", "inter", "names"])
    bs = rand(c, live.PROFILES, ["avc", "hevc", "plain"], 24 * n, 60 if c.quick else 110, flv=[5])
    c.replay("live fan-out", bs, live.LiveRunner, procs=8)

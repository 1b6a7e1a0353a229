import live
import livemix
from livemix import rand


def main(c):
    n = 1 if c.quick else 8
    livemix.models(c, ["pri", "noidle"])
    bs = rand(c, live.PROFILES, ["avc", "plain"], 24 * n, 60 if c.quick else 110, Pris="{0,1,2}", Names="{1}", Sess="1..6", flv=[6])
    bs += livemix.every("default", Sess="1..2", Kinds='{"k","a"}', MaxFrames=2, Pris="{0,1}")[::1 if not c.quick else 3]
    c.replay("publishers of one stream", bs, live.LiveRunner, procs=8)

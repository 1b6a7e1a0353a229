import live
import livemix
from livemix import rand


def main(c):
    n = 1 if c.quick else 8
    livemix.models(c, ["flv", "noidle"])
    bs = rand(c, live.PROFILES, ["avc", "hevc", "plain"], 20 * n, 60 if c.quick else 110, flv=[3, 4, 5, 6], Sess="1..6")
    bs += livemix.every("default", Sess="1..3", Kinds='{"k","vh"}', MaxFrames=1, flv=[2, 3])
    c.replay("HTTP-FLV players", bs, live.LiveRunner, procs=8)

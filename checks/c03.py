import live
import livemix
from livemix import rand


def main(c):
    n = 1 if c.quick else 8
    livemix.models(c, ["names", "noidle"])
    bs = rand(c, live.PROFILES, ["avc", "hevc"], 20 * n, 60 if c.quick else 110, flv=[4, 5])
    for prof in ("default", "noidle") if c.quick else live.PROFILES:
        bs += livemix.every(prof, Sess="1..2", Kinds='{"k","m","vh"}', MaxFrames=2)
        bs += livemix.every(prof, Sess="1..3", Kinds='{"k"}', MaxFrames=1, flv=[3])
    c.replay("session lifecycle", bs, live.AsanLiveRunner, procs=8)

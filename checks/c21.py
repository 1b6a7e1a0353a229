import tla
import unit

TS = {1, 2, 3}
ES = {1, 2, 3, 4, 5, 6}


def main(c):
    q = c.quick
    c.model("Pools", "Pools", dict(Slots={1, 2, 3}, Sizes={1, 2}, MaxOps=1000, Gen=False),
            invariants=["NeverLess", "Needed"], view="View", workers=3, timeout=3000)
    c.model("Timers", "Timers", dict(Ts={1, 2}, Es={1, 2}, NSlots=1, Lazy=300, Delays={10, 400}, Ticks={15, 350}, MaxOps=4 if q else 5,
                                     Gen=False), invariants=["NotLate", "Once", "Slots"], properties=["NoOverdue", "OnlyArmed"],
            workers=4, timeout=3000)
    m = 1 if q else 10
    bs = [{"kind": "pools", "log": l} for k, d in [(6, 150), (20, 400)] for l in
          tla.simulate("Pools", dict(Slots=set(range(1, k + 1)), Sizes={1, 2, 3, 4}, MaxOps=100000, Gen=True), 30 * m, d, c.seed + k,
                       next="GenNext", procs=3, timeout=600)]
    ts = [{"kind": "timers", "Ts": sorted(TS), "log": l} for l in
          tla.simulate("Timers", dict(Ts=TS, Es=ES, NSlots=4, Lazy=300, Delays={1, 7, 40, 150, 299, 300, 333, 700, 2000},
                                      Ticks={1, 3, 30, 200, 1000}, MaxOps=100000, Gen=True), 60 * m, 150, c.seed, next="GenNext", procs=4,
                       timeout=600)]
    c.replay("buffers and pools", bs, unit.UnitRunner, procs=4)
    c.replay("timers", ts, unit.UnitRunner, procs=4)
    c.replay("address sanitizer", bs[::3] + ts[::3], unit.AsanUnitRunner, procs=6)

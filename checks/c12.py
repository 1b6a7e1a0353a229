import notify
import tla


def main(c):
    q = c.quick
    for p in notify.PROFILES:
        c.model(f"Notify/{p}", "Notify", notify.consts(p, Slots={1, 2} if q else {1, 2, 3}, Names={1, 2}), invariants=["OneOwner", "Known", "Streams"],
                properties=["Gate", "Alone", "Promoted"], workers=1, timeout=300 if q else 3000, coverage=False, view="View")
    n = 1 if q else 10
    bs = []
    for k, p in enumerate(notify.PROFILES):
        g = notify.consts(p, Slots=set(range(1, 7)), FlvSlots=notify.FLV, Names={1, 2}, Codes={200, 204, 300, 301, 400, 403, 404, 500, -1}, Gen=True)
        bs += [{"profile": p, "log": l} for l in tla.simulate("Notify", g, 40 * n, 60, c.seed * 10 + k, next="GenNext", procs=2, timeout=600)]
    bs = bs[::3] + bs[1::3] + bs[2::3]
    c.replay("sessions and callbacks", bs, notify.NotifyRunner, procs=6)
    c.replay("address sanitizer", bs[::5], notify.AsanNotifyRunner, procs=4)

import httpc
import tla


def main(c):
    q = c.quick
    c.model("HttpRead", "HttpRead", {"N": 2 if q else 3}, invariants=["Sound"], properties=["Agree", "Once", "Answered"], workers=2, timeout=300 if q else 3000, coverage=False)
    c.model("HttpClient", "HttpClient", dict(N=1, Reqs={1, 2}, Ups={1}, MaxIdle=1, Statuses={200}, Units=1, Gen=False, MaxOps=4 if q else 6),
            invariants=["Alone", "Closed", "Bounded"], properties=["Final"], view="CView", workers=2, timeout=300 if q else 3000, coverage=False, spec="CSpec")
    g = dict(N=1, Reqs={1, 2, 3}, Ups={1, 2}, MaxIdle=httpc.IDLE, Statuses={200, 201, 206, 302, 404, 500, 204, 304}, Units=5, Gen=True, MaxOps=10**6)
    bs = [{"log": l} for l in tla.simulate("HttpClient", g, 130 if q else 6000, 60, c.seed, init="CInit", next="CGenNext", procs=4, timeout=600)]
    bs = list({str(b["log"][:-1]): b for b in bs}.values())     # TLC tells all last steps of a walk
    c.replay("requests", bs, httpc.HttpcRunner, procs=6)
    c.replay("address sanitizer", bs[::5], httpc.AsanHttpcRunner, procs=4)

"""parallel smoke run of the interpreter over all exported functions"""
import sys, multiprocessing as mp, signal, time, traceback
import harness, inputs, interp
F = None
def one(a):
    cfg, i, mode = a
    fn = F[cfg]["fns"][i]
    t0 = time.time()
    signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError("t/o")))
    signal.alarm(TO)
    try:
        e, c, outs = harness.run(F[cfg], fn, mode=mode)
        fails = [o for o in e.obl if o[3] != "ok"]
        kinds = {}
        for k, s, v in outs: kinds[k] = kinds.get(k, 0) + 1
        taint = set(t for k, s, v in outs for t in s.taint); appr = set(t for k, s, v in outs for t in s.approx)
        r = "%-4s %-80s %5.2fs steps %d obl %d fail %d %s %s %s" % (cfg, fn["key"], time.time() - t0, e.steps, len(e.obl), len(fails), kinds, sorted(taint), sorted(appr))
        for o in fails[:4]: r += "\n    FAIL %s %s %s %s" % (o[0], o[1], o[2], [k for k, _ in o[6]][-3:])
        for k, s, v in outs:
            if k == "panic": r += "\n    PANIC %s" % (v[:2],)
        return (1 if fails else 0, time.time() - t0, r)
    except (Exception, ) as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        return (2, time.time() - t0, "%-4s %-80s ERR %s %s at %s:%d" % (cfg, fn["key"], type(ex).__name__, ex, tb.filename.split("/")[-1], tb.lineno))
    finally: signal.alarm(0)
if __name__ == "__main__":
    TO = 240
    F = {"off": harness.load("/tmp/vd/full-off.json"), "on": harness.load("/tmp/vd/full-on.json")}
    cfgs = ["off", "on"]
    pats = [a for a in sys.argv[1:]]
    jobs = [(c, i, "widen") for c in cfgs for i, fn in enumerate(F[c]["fns"]) if fn["exported"] and fn["key"] in F[c]["bodies"] and (not pats or any(p in fn["key"] for p in pats))]
    with mp.Pool(8, maxtasksperchild=20) as p:
        res = p.map(one, jobs, chunksize=1)
    t = [0, 0, 0]
    for r in sorted(res, key=lambda r: (r[0], r[1])): t[r[0]] += 1; print(r[2])
    print("ok %d fail %d err %d" % tuple(t), "cpu", sum(r[1] for r in res))

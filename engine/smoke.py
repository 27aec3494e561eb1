"""developer run over all functions: python3 smoke.py [-p C01,C02] [-u] [substr...]"""
import sys, multiprocessing as mp, signal, time, traceback
import harness, checks
def one(a):
    cfg, i, props, unw = a
    fn = F[cfg]["fns"][i]
    signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError("t/o")))
    signal.alarm(TO)
    t0 = time.time()
    try: return checks.analyse(F[cfg], fn, cfg, props, unwind=unw)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        return {"fn": fn["key"], "cfg": cfg, "err": "%s %s at %s:%d" % (type(ex).__name__, ex, tb.filename.split("/")[-1], tb.lineno), "res": [], "t": time.time() - t0, "modes": []}
    finally: signal.alarm(0)
if __name__ == "__main__":
    TO = 200
    args = sys.argv[1:]; props = None; unw = False; root = "/tmp/vd/full-%s.json"; verbose = False
    while args and args[0].startswith("-"):
        if args[0] == "-p": props = set(args[1].split(",")); args = args[2:]
        elif args[0] == "-u": unw = True; args = args[1:]
        elif args[0] == "-r": root = args[1]; args = args[2:]
        elif args[0] == "-v": verbose = True; args = args[1:]
    F = {"off": harness.load(root % "off"), "on": harness.load(root % "on")}
    jobs = [(c, i, props, unw) for c in F for i, fn in enumerate(F[c]["fns"]) if fn["exported"] and fn["key"] in F[c]["bodies"] and fn["name"] != "fmt" and (not args or any(p in fn["key"] for p in args))]
    with mp.Pool(8, maxtasksperchild=20) as p: res = p.map(one, jobs, chunksize=1)
    cnt = {}
    for r in sorted(res, key=lambda r: (r["fn"], r["cfg"])):
        bad = [x for x in r["res"] if x[3] != "proved"]
        for x in r["res"]: cnt[(x[0], x[3])] = cnt.get((x[0], x[3]), 0) + 1
        if r["err"] or bad or verbose: print("%s %s %.1fs %s %s" % (r["cfg"], r["fn"], r["t"], r["err"] or "", r["modes"]))
        for x in (r["res"] if verbose else bad): print("     ", x[3].upper(), x[0], x[1], x[2], "" if x[3] == "proved" else x[5])
    print("cpu %.0f max %s" % (sum(r["t"] for r in res), sorted(((round(r["t"], 1), r["fn"]) for r in res), reverse=True)[:5]))
    for k in sorted(cnt): print(k, cnt[k])

"""Check runner: python3 run.py <PROPERTY>   (VERIF_TIER=quick|thorough)
Extracts facts from /repo's current source, decides every obligation of the property, writes evidence, reports violations."""
import sys, os, json, time, multiprocessing as mp, resource, traceback
import build, checks, iters, inputs, props, features, term, order, plans
T0 = time.time()
SKIP_TRAITS = ("Debug", "Display", "Error")

def names(facts, fn):
    tr = checks.last(fn["trait"]["path"]) if fn.get("trait") else None
    return tr
def tasks_for(facts, cfg, prop):
    """(task, why) for every function whose analysis produces obligations of prop; why: reason for skipping"""
    out = []; skipped = []
    T = facts["types"]
    for i, fn in enumerate(facts["fns"]):
        if not fn["exported"] or fn["key"] not in facts["bodies"]: continue
        tr = names(facts, fn)
        if tr in SKIP_TRAITS: continue
        if any(iters.iter_type(facts, t) for t in fn["ins"]): continue          # analysed through their constructors
        try: rel = checks.relevant(facts, fn, cfg, prop)
        except checks.ERRS as ex: skipped.append((fn["key"], "%s: %s" % (type(ex).__name__, ex))); continue
        if rel: out.append(("fn", cfg, i))
    kinds = {"C16": ("RangeIter", "PRangeIter"), "C11": ("Subdivide",)}.get(prop, iters.ITERS if prop in ("C02", "C03", "C04", "C17", "C21", "C26") else ())
    if kinds:
        for i, fn in enumerate(facts["fns"]):
            if fn in CONS[cfg] and iters.iter_type(facts, fn["out"]) in kinds and (prop != "C26" or any(term.loopy(facts, m["key"], facts.setdefault("#loopy", {})) for m in iters.methods(facts, iters.iter_type(facts, fn["out"])))): out.append(("iter", cfg, i))
    return out, skipped
def work(task):
    kind, cfg, i = task
    facts = F[cfg]; fn = facts["fns"][i]
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    t0 = time.time()
    try:
        if kind == "fn":
            u = order.given(fn, TIER) if PROP in ("C25", "C29") else list(UNROLLS) + order.given(fn, TIER) if PROP == "C23" else [1, 2, 3] + plans.schedules(TIER) + list(UNROLLS[3:]) if PROP in ("C14", "C30") and fn["name"] in plans.SEARCHES else UNROLLS
            return task, checks.analyse(facts, fn, cfg, {PROP}, deadline=T0 + LIMIT, unrolls=u, unwind=PROP == "C12", stage=STAGE)
        u = UNROLLS
        if iters.iter_type(facts, fn["out"]) == "Subdivide": u = [(n, n + 2) for n in ((2, 3, 1, 4) if TIER == "quick" else (2, 3, 1, 4, 5, 6))]
        return task, checks.analyse(facts, fn, cfg, {PROP}, deadline=T0 + LIMIT, unrolls=u, cls=iters.IterAn, stage=STAGE)
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt): raise
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        return task, {"fn": fn["key"], "cfg": cfg, "err": "%s %s at %s:%d" % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno), "res": [], "t": time.time() - t0, "modes": [], "visited": [], "steps": 0, "loops": 0, "outcomes": {}}

def known():
    p = os.path.join(build.ROOT, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
def dataflow(prop, scratch):
    """abstract interpretation of every relevant function in both build profiles"""
    global F, CONS
    F = {"off": build.extract("full", False, scratch), "on": build.extract("full", True, scratch)}
    # code that another feature configuration executes instead of what the full one executes
    cf = features.load(scratch, full=F["off"]); other = {}
    for c in ("none", "std", "ptr"):
        other[c] = set(cf[c].fns[i]["key"] for i in features.differing(cf[c], cf["full"]))
        if other[c]: F[c] = cf[c].f
    CONS = {c: iters.constructors(F[c]) for c in F}
    jobs = []; skipped = []
    for c in F:
        t, s = tasks_for(F[c], c, prop); skipped += [(c,) + x for x in s]
        jobs += [x for x in t if c in ("off", "on") or F[c]["fns"][x[2]]["key"] in other[c]]
    jobs.sort(key=lambda t: -weight(t))
    res = []
    with mp.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=25) as p:
        it = p.imap_unordered(work, jobs, chunksize=1)
        left = set(jobs)
        try:
            while left:
                task, r = it.next(timeout=max(1, T0 + LIMIT + 30 - time.time()))
                left.discard(task); res.append(r)
        except mp.TimeoutError: pass
        except StopIteration: pass
        for t in left: res.append({"fn": F[t[1]]["fns"][t[2]]["key"], "cfg": t[1], "err": "overall time limit", "res": [], "t": 0, "modes": [], "visited": [], "steps": 0, "loops": 0, "outcomes": {}})
        p.terminate()
    obl = [];
    for r in res:
        for pr, label, sp, verdict, n, detail in r["res"]:
            if pr == "*": continue
            obl.append({"fn": r["fn"], "cfg": r["cfg"], "rule": label, "at": sp, "verdict": verdict, "states": n, "detail": detail})
    nothing = [(r["cfg"], r["fn"], r["err"]) for r in res if r["err"] and ("uninhabited input" in r["err"] or "without a stated precondition" in r["err"])]
    skipped += nothing
    und = [{"fn": r["fn"], "cfg": r["cfg"], "why": r["err"]} for r in res if r["err"] and (r["cfg"], r["fn"], r["err"]) not in nothing] + [{"fn": r["fn"], "cfg": r["cfg"], "why": l} for r in res for p_, l, *_ in r["res"] if p_ == "*"]
    visited = set(v for r in res for v in r["visited"])
    stats = {"functions_analysed": len(set(o["fn"] for o in obl)), "analyses": len(res), "bodies_interpreted": len(visited), "interpreter_steps": sum(r["steps"] for r in res),
             "loops_summarised": sum(r["loops"] for r in res), "paths_returning": sum(r["outcomes"].get("ret", 0) for r in res), "paths_unwinding": sum(r["outcomes"].get("unwind", 0) for r in res),
             "skipped": [list(s) for s in skipped], "not_decided": und[:50]}
    return obl, stats
def weight(t):
    fn = F[t[1]]["fns"][t[2]]
    w = {"merge_internal_indices": 9, "merge_internal_ranges": 9, "quicksort_range": 8, "quicksort_prange": 8, "quicksort_bounds": 7, "subdivide": 10, "block_swap_prange": 5}.get(fn["name"], 0)
    return w + (3 if "sort" in fn["name"] else 0) + (2 if "heap" in fn["name"] else 0) + len(F[t[1]]["bodies"][fn["key"]]["blocks"]) / 200
def main():
    global PROP, TIER, LIMIT, UNROLLS, STAGE
    PROP = sys.argv[1]; TIER = os.environ.get("VERIF_TIER", "quick")
    LIMIT = 600 if TIER == "quick" else 3000
    UNROLLS = (1, 2, 3, 4, 5, 6, 7) if TIER == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9)
    STAGE = (400 if PROP in ("C25", "C29") else 250) if TIER == "quick" else 900 if PROP in ("C25", "C29") else 600
    P = props.PROPS[PROP]
    scratch = build.scratch()
    try:
        obl, stats = [], {}
        for part in P["parts"]:
            if part == "dataflow": o, s = dataflow(PROP, scratch)
            else:
                import typelevel
                o, s = typelevel.run(part, PROP, scratch, TIER)
            obl += o
            for k, v in s.items():
                if k in stats and isinstance(v, list): stats[k] = stats[k] + v
                elif k in stats and isinstance(v, int): stats[k] += v
                else: stats[k] = v
    except build.BuildError as ex:
        print("ERROR: %s" % ex); return 2
    finally: build.drop(scratch)
    if not obl:
        print("ERROR: nothing of %s found in the source" % PROP); return 2
    return report(PROP, P, obl, stats)
def report(prop, P, obl, stats):
    ev = os.path.join(build.ROOT, "evidence"); os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    bad = [o for o in obl if o["verdict"] == "refuted"]; und = [o for o in obl if o["verdict"] == "undecided"]; good = [o for o in obl if o["verdict"] == "proved"]
    kf = [k for k in known()["findings"] if k["property"] == prop]
    new = []
    for o in bad:
        k = next((k for k in kf if k["rule"] == o["rule"] and k["fn"] == o["fn"]), None)
        if k: print("KNOWN-FINDING: property=%s %s: %s" % (prop, o["fn"], o["rule"]))
        else: new.append(o)
    rules = {}
    for o in obl:
        r = rules.setdefault(o["rule"], {"obligations": 0, "discharged": 0}); r["obligations"] += 1; r["discharged"] += o["verdict"] == "proved"
    cov = {"obligations": len(obl), "discharged": len(good), "undecided": len(und), "refuted": len(bad), "checker_cmd": "VERIF_TIER=%s ./check.sh %s" % (TIER, prop), "trusted_base": P["trusted"],
           "method": P["method"], "rules": rules, "samples": [{k: o.get(k) for k in ("fn", "cfg", "rule", "at", "verdict", "states")} for o in (good[:3] + und[:5])]}
    cov.update(stats)
    rec = {"property": prop, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": P["level"], "coverage": cov, "assumptions": P["assume"], "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    with open(os.path.join(ev, prop + ".json"), "w") as f: json.dump(rec, f, indent=1, default=str)
    rp = os.path.join(ev, "replays", prop + ".json")
    if os.path.exists(rp): os.remove(rp)
    print("%s: %d obligations, %d discharged, %d undecided, %d refuted (%d functions, %.0f s)" % (prop, len(obl), len(good), len(und), len(bad), stats.get("functions_analysed", 0), time.time() - T0))
    for o in und[:10]: print("  undecided: %s [%s]: %s %s -- %s" % (o["fn"], o["cfg"], o["rule"], o["at"], str(o["detail"])[:200]))
    for o in stats.get("not_decided", [])[:10]: print("  not analysed: %s [%s]: %s" % (o["fn"], o["cfg"], o["why"]))
    if not new: return 0
    with open(rp, "w") as f: json.dump({"property": prop, "violations": new}, f, indent=1, default=str)
    for o in new[:5]:
        print("  %s [%s] %s: %s" % (o["fn"], o["cfg"], o["at"], o["rule"]))
        for d in o["detail"][:1]: print("    ", str(d)[:600])
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1
if __name__ == "__main__": sys.exit(main())

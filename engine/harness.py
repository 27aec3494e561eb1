import sys, json, time
from poly import *
import state as S
from state import *
import interp, inputs
from interp import Engine, Unsupported, Budget
def load(p): return json.load(open(p))
def run(facts, fn, mode="widen", unwind=False, debug=False, unroll=3, setup=None, budget=400000):
    e = Engine(facts, unwind=unwind, mode=mode, unroll=unroll, budget=budget)
    e.debug = debug
    c = inputs.Ctx(e, fn)
    st = St()
    cur = [(st, [])]
    for i, t in enumerate(fn["ins"]):
        cur = [(s2, vs + [v]) for s, vs in cur for s2, v in c.value(s, t, "a%d" % i)]
    outs = []
    for s, vs in cur:
        s.gh["#len0"] = {r: s.regs[r].len for r in s.regs}
        if setup: setup(e, c, s, vs)
        outs += e.run_body(fn["key"], facts["bodies"][fn["key"]], s, vs)
    return e, c, outs
if __name__ == "__main__":
    f = load(sys.argv[1])
    pat = sys.argv[2:]
    dbg = "-d" in pat
    pat = [p for p in pat if p != "-d"]
    bad = ok = 0
    for fn in f["fns"]:
        if not fn["exported"] or fn["key"] not in f["bodies"]: continue
        if pat and not any(p in fn["key"] for p in pat): continue
        t0 = time.time()
        try:
            e, c, outs = run(f, fn, debug=dbg)
            fails = [o for o in e.obl if o[3] != "ok"]
            kinds = {}
            for k, s, v in outs: kinds[k] = kinds.get(k, 0) + 1
            taint = set(t for k, s, v in outs for t in s.taint)
            appr = set(t for k, s, v in outs for t in s.approx)
            print("%-80s %5.2fs steps %d obl %d fail %d %s %s" % (fn["key"], time.time() - t0, e.steps, len(e.obl), len(fails), kinds, (sorted(taint), sorted(appr))))
            if pat or fails:
                for o in fails[:6]: print("    FAIL", o[0], o[1], o[2], [k for k, _ in o[6]][-3:])
            if len(pat) and dbg:
                for k, s, v in outs: print("   ", k, v if k == "ret" else v, "|", [repr(x) for x in s.cons][:20])
            ok += 1
        except (Unsupported, Budget, inputs.Anchor, KeyError, AssertionError, IndexError, TypeError, AttributeError) as ex:
            bad += 1
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            print("%-80s ERR %s %s at %s:%d" % (fn["key"], type(ex).__name__, ex, tb.filename.split("/")[-1], tb.lineno))
    print(ok, bad)

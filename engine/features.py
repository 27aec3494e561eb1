"""C19: feature configurations. Facts of the crate in all four combinations of its two features are compared item by item and
body by body; an operation whose body is not the same as in the full configuration is analysed there as well."""
import re, json, multiprocessing as mp, multiprocessing.pool, os, time, traceback
import build, checks, iters

CORE = {"core", "compiler_builtins", "rustc_std_workspace_core"}
DEFID = re.compile(r"\b\d+:\d+ ~ ([a-z_]+)\[[0-9a-f]*\]")
IMPL = re.compile(r"[A-Za-z0-9_:]+::\{impl#\d+\}")
INDEXAPI = ("Container", "Index", "Range", "RangeIter", "Subdivide", "Trustworthy", "GetUnchecked", "GetUncheckedMut", "Pushable", "FixedLength", "IndexRange", "OnePointRange", "Provable", "ProofAdd", "IndexingError")
def last(p): return p.rsplit("::", 1)[-1]
def ob(rule, fn, at, verdict, detail=None, cfg=""): return {"fn": fn, "cfg": cfg, "rule": rule, "at": at, "verdict": verdict, "states": 1, "detail": detail or []}

class Cfg:
    """facts of one configuration with names that do not depend on the numbering of impls or types"""
    def __init__(self, name, facts):
        self.name = name; self.f = facts; self.T = facts["types"]; self.memo = {}; self.impl = {}
        for i in facts["impls"]: self.impl[i["def"]] = self.implname(i)
        self.fns = {}; self.key2id = {}
        for f in facts["fns"]:
            k = self.fnid(f); self.key2id[f["key"]] = k
            if k in self.fns: k = k + "#" + self.stable(f["def"])
            self.fns.setdefault(k, f)
    def implname(self, i):
        tr = i.get("trait")
        return "<%s%s for %s>" % ("!" if i.get("neg") else "", (tr + self.args(i.get("targs", ())[1:])) if tr else "", self.ty(i["self"])) + i["def"].rsplit("::", 1)[0]
    def args(self, a):
        r = [self.ty(x["ty"]) if "ty" in x else str(x.get("re", "")) if x.get("re", "").startswith("'") else "_" if "re" in x else json.dumps(x, sort_keys=True) for x in a]
        return "<%s>" % ", ".join(r) if r else ""
    def ty(self, t):
        if t is None: return "-"
        if t in self.memo: return self.memo[t]
        self.memo[t] = "..."
        T = self.T[t]; k = T["k"]
        if k == "adt": r = T["def"] + self.args(T["args"])
        elif k in ("ref", "ptr"): r = ("&" if k == "ref" else "*") + (self.region(T.get("re")) if k == "ref" else "") + ("mut " if T["mut"] else "") + self.ty(T["to"])
        elif k == "slice": r = "[%s]" % self.ty(T["to"])
        elif k == "array": r = "[%s; %s]" % (self.ty(T["to"]), T["n"])
        elif k == "tuple": r = "(%s)" % ", ".join(self.ty(x) for x in T["f"])
        elif k == "param": r = T["param"]
        elif k in ("fndef", "closure"): r = k + " " + T["def"] + (self.args(T["args"]) if "args" in T else "")
        else: r = T["name"].replace("std::", "core::")
        r = self.stable(r); self.memo[t] = r
        return r
    def region(self, r):
        if not r: return ""
        m = re.search(r"::('[a-z_A-Z0-9]+)\)*$", r)
        return (r if r.startswith("'") else m.group(1) if m else "'_") + " "
    def stable(self, s):
        s = DEFID.sub(r"\1", s).replace("std::", "core::")
        return IMPL.sub(lambda m: self.impl.get(m.group(0), m.group(0)), s) if "{impl#" in s else s
    def fnid(self, f):
        p = ",".join(f["proofs"])
        if f["impl"]: return "%s::%s[%s]" % (self.impl[f["parent"]], f["name"], p)
        return "%s[%s]" % (f["def"], p)
    def bounds(self, bs):
        out = []
        for b in bs:
            if b["k"] == "trait": out.append("%s: %s%s" % (self.ty(b["self"]), b["trait"], self.args(b["args"][1:])))
            elif b["k"] == "proj": out.append("%s::%s = %s" % (self.ty(b["self"]), b["name"], self.ty(b["term"])))
            else: out.append(b["dbg"])
        return sorted(self.stable(x) for x in out)
    def sig(self, f): return ("unsafe " if f["unsafe"] else "") + "(%s) -> %s where %s" % (", ".join(self.ty(t) for t in f["ins"]), self.ty(f["out"]), "; ".join(self.bounds(f["bounds"])))
    # ---------------------------------------------------------------- what an item is made of
    def tydefs(self, ts):
        """paths of all types and traits mentioned in types ts"""
        out = set(); st = list(ts); seen = set()
        while st:
            t = st.pop()
            if t is None or t in seen: continue
            seen.add(t); T = self.T[t]
            if "def" in T: out.add(T["def"])
            if "to" in T: st.append(T["to"])
            if isinstance(T.get("f"), list): st += [x for x in T["f"] if isinstance(x, int)]
            st += [a["ty"] for a in T.get("args", ()) if isinstance(a, dict) and "ty" in a] if isinstance(T.get("args"), list) else []
        return out
    def fndefs(self, f):
        out = self.tydefs(f["ins"] + [f["out"], f.get("self")])
        if f.get("trait"): out.add(f["trait"]["path"])
        for b in f["bounds"]:
            if b["k"] == "trait": out.add(b["trait"]); out |= self.tydefs([b["self"]] + [a["ty"] for a in b["args"] if "ty" in a])
        for k in self.reach(f["key"]):
            b = self.f["bodies"][k]
            out |= self.tydefs(b["locals"]); out.add(b["def"])
        return out
    def reach(self, key):
        """keys of all bodies reachable from key"""
        B = self.f["bodies"]; seen = set(); st = [key]
        while st:
            k = st.pop()
            if k in seen or k not in B: continue
            seen.add(k); st += self.refs(k)
        return seen
    def refs(self, k):
        m = self.__dict__.setdefault("_refs", {})
        if k not in m:
            out = set(); b = self.f["bodies"][k]
            def walk(x):
                if isinstance(x, dict):
                    for q, v in x.items():
                        if q in ("key",) and isinstance(v, str): out.add(v)
                        else: walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(b["blocks"])
            for t in b["locals"]:
                if self.T[t]["k"] == "closure": out |= set(q for q in self.closures().get(self.T[t]["def"], ()))
            m[k] = out
        return m[k]
    def closures(self):
        if "_cl" not in self.__dict__:
            self._cl = {}
            for k, b in self.f["bodies"].items(): self._cl.setdefault(b["def"], []).append(k)
        return self._cl
    # ---------------------------------------------------------------- normal form of one body
    SKIP = {"sp", "path", "rpath", "impl_self", "names", "u"}
    def body(self, k):
        m = self.__dict__.setdefault("_bodies", {})
        if k not in m: m[k] = json.dumps(self.nf(self.f["bodies"][k], None), sort_keys=True)
        return m[k]
    def nf(self, x, where):
        if isinstance(x, dict):
            if where == "args" and "re" in x: return "re"
            out = {}
            for q, v in x.items():
                if q in self.SKIP: continue
                if q in ("ty", "dt", "self", "from") and isinstance(v, int): out[q] = self.ety(v)
                elif q == "t" and isinstance(v, int) and where != "term": out[q] = self.ety(v)
                elif q in ("locals", "at"): out[q] = [self.ety(t) for t in v]
                elif q == "t" and isinstance(v, dict): out[q] = self.nf(v, "term")
                else: out[q] = self.nf(v, "args" if q == "args" else None)
            return out
        if isinstance(x, list): return [self.nf(v, where if where == "args" else None) for v in x]
        if isinstance(x, str): return self.stable(x)
        return x
    def ety(self, t): return re.sub(r"'[a-z_A-Z0-9{}]+ ?", "", self.ty(t))

def load(scratch, checked=False, full=None):
    with mp.pool.ThreadPool(4) as p: fs = p.map(lambda c: (c, full if c == "full" and full is not None else build.extract(c, checked, scratch)), list(build.FEATURES))
    return {c: Cfg(c, f) for c, f in fs}
def differing(C, full):
    """ids of exported functions of C that do not execute exactly the bodies they execute in full: {id: [bodies that differ]}"""
    out = {}
    stab = lambda c, k: c.stable(k)
    fk = {}
    for k in full.f["bodies"]: fk.setdefault(stab(full, k), []).append(k)
    same = {}
    for k in C.f["bodies"]:
        q = fk.get(stab(C, k), ())
        same[k] = any(C.body(k) == full.body(x) for x in q)
    for i, f in C.fns.items():
        if not f["exported"] or f["key"] not in C.f["bodies"]: continue
        d = [k for k in C.reach(f["key"]) if not same[k]]
        if d: out[i] = sorted(d)
    return out
# -------------------------------------------------------------------- analysing what differs
def work(a):
    c, key, kind, limit = a
    facts = G[c].f; fn = next(f for f in facts["fns"] if f["key"] == key)
    try:
        if kind == "iter": return a, checks.analyse(facts, fn, "off", None, deadline=limit, cls=iters.IterAn, unrolls=(2,), stage=120)
        return a, checks.analyse(facts, fn, "off", None, deadline=limit, stage=120, unwind=checks.relevant(facts, fn, "off", "C12"))
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt): raise
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        return a, {"fn": key, "err": "%s %s at %s:%d" % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno), "res": []}
def analyse(cfgs, diffs, limit):
    global G
    G = cfgs; jobs = []
    for c, d in diffs.items():
        C = cfgs[c]; cons = iters.constructors(C.f)
        for i in d:
            fn = C.fns[i]
            if checks.last(fn["trait"]["path"]) in ("Debug", "Display", "Error") if fn.get("trait") else False: continue
            if any(iters.iter_type(C.f, t) for t in fn["ins"]): continue
            jobs.append((c, fn["key"], "fn", limit))
            if fn in cons: jobs.append((c, fn["key"], "iter", limit))
    out = []
    if not jobs: return out
    with mp.Pool(min(8, os.cpu_count() or 1)) as p:
        for a, r in p.imap_unordered(work, jobs, chunksize=1): out.append((a, r))
    return out
def run(scratch, tier):
    t0 = time.time(); cfgs = load(scratch); full = cfgs["full"]; out = []
    m = build.manifest()["toml"]
    deps = [n for n, d in m.get("dependencies", {}).items() if not (isinstance(d, dict) and d.get("optional"))]
    out.append(ob("no dependency is compiled in unconditionally", "Cargo.toml", "", "refuted" if deps else "proved", ["non-optional dependencies: %s" % deps]))
    for c in ("none", "ptr"):
        extra = sorted(set(cfgs[c].f["crates"]) - CORE)
        out.append(ob("without use_std only core is linked", "crate", "", "refuted" if extra else "proved", ["the crate links %s without use_std" % extra], c))
        for k, b in cfgs[c].f["bodies"].items():
            if b["path"].split("::")[0].lstrip("<") in ("std", "alloc"): out.append(ob("without use_std only core is called", k, "", "refuted", ["%s is called" % b["path"]], c))
    # ---------------- the API only grows with features
    pairs = [("none", "std"), ("none", "ptr"), ("std", "full"), ("ptr", "full")]
    for a, b in pairs:
        A, B = cfgs[a], cfgs[b]
        what = "use_std" if (a, b) in (("none", "std"), ("ptr", "full")) else "experimental_pointer_ranges"
        for i, f in A.fns.items():
            if not f["exported"]: continue
            g = B.fns.get(i)
            ok = g is not None and g["exported"] and A.sig(f) == B.sig(g)
            out.append(ob("switching a feature on keeps every operation and its signature", f["key"], f["sp"], "proved" if ok else "refuted", ["%s has %s with %s" % (i, "another signature: " + B.sig(g) if g is not None else "disappeared", what)], "%s->%s" % (a, b)))
        ia, ib = {}, {}
        for X, d in ((A, ia), (B, ib)):
            for i in X.f["impls"]:
                if i.get("trait"): d.setdefault(X.impl[i["def"]], []).append((tuple(X.bounds(i["bounds"])), i))
        for n, l in sorted(ia.items()):
            bad = [x for x in l if x[0] not in [y[0] for y in ib.get(n, ())]]
            out.append(ob("switching a feature on keeps every trait impl", n, l[0][1]["sp"], "refuted" if bad else "proved", ["%s is gone or has other bounds with %s" % (n, what)], "%s->%s" % (a, b)))
        ta = {x["def"]: x for x in A.f["traits"]}; tb = {x["def"]: x for x in B.f["traits"]}
        da = {x["def"]: x for x in A.f["adts"]}; db = {x["def"]: x for x in B.f["adts"]}
        for n, x in sorted(ta.items()):
            y = tb.get(n); ok = y is not None and x["unsafe"] == y["unsafe"] and x["exported"] == y["exported"] and A.bounds(x["bounds"]) == B.bounds(y["bounds"])
            out.append(ob("switching a feature on keeps every trait", n, x["sp"], "proved" if ok else "refuted", ["trait %s is gone or differs with %s" % (n, what)], "%s->%s" % (a, b)))
        for n, x in sorted(da.items()):
            y = db.get(n); sh = lambda X, q: (q["generics"], [(f["n"], f["vis"] if f["vis"] == "Public" else "-", X.ty(f["t"])) for f in q["fields"]], q["exported"])
            ok = y is not None and sh(A, x) == sh(B, y)
            out.append(ob("switching a feature on keeps every type", n, x["sp"], "proved" if ok else "refuted", ["type %s is gone or differs with %s" % (n, what)], "%s->%s" % (a, b)))
        # what a feature adds must need that feature
        adts = set(db) | set(tb); new = adts - (set(da) | set(ta))
        need = (lambda ds: any(d.startswith(("std::", "alloc::")) for d in ds)) if what == "use_std" else (lambda ds: any(d in new or d.startswith("indexing::pointer::") for d in ds))
        if what != "use_std" and not new: need = lambda ds: True
        for i, g in B.fns.items():
            if not g["exported"] or i in A.fns and A.fns[i]["exported"]: continue
            ds = B.fndefs(g)
            if not any(d.startswith("indexing::") and last(d) in INDEXAPI for d in ds): continue       # e.g. a reference implementation on plain slices
            ok = need(ds)
            out.append(ob("a feature gates only what needs it", g["key"], g["sp"], "proved" if ok else "refuted", ["%s is missing without %s although nothing in it needs that feature" % (i, what)], "%s->%s" % (a, b)))
        for n, l in sorted(ib.items()):
            if n in ia: continue
            i = l[0][1]; ds = B.tydefs([i["self"]] + [x["ty"] for x in i.get("targs", ()) if "ty" in x]) | {i["trait"]}
            for bd in i["bounds"]:
                if bd["k"] == "trait": ds.add(bd["trait"])
            fs = [g for g in B.f["fns"] if g["parent"] == i["def"]]
            for g in fs: ds |= B.fndefs(g)
            out.append(ob("a feature gates only what needs it", n, i["sp"], "proved" if need(ds) else "refuted", ["%s is missing without %s although nothing in it needs that feature" % (n, what)], "%s->%s" % (a, b)))
    # ---------------- same bodies, or analysed in that configuration as well
    diffs = {}; nsame = 0
    for c in ("none", "std", "ptr"):
        diffs[c] = differing(cfgs[c], full)
        for i, f in cfgs[c].fns.items():
            if f["exported"] and f["key"] in cfgs[c].f["bodies"] and i not in diffs[c]:
                nsame += 1; out.append(ob("the operation executes the same code in every configuration", f["key"], f["sp"], "proved", [], c))
    for (c, key, kind, _), r in analyse(cfgs, diffs, t0 + (500 if tier == "quick" else 2000)):
        bad = [x for x in r["res"] if x[3] == "refuted"]; und = [x for x in r["res"] if x[3] == "undecided"] or r["err"]
        det = ["%s: %s %s: %s" % (x[0], x[1], x[2], str(x[5])[:400]) for x in bad[:3]] or [str(r["err"] or und)[:300]]
        out.append(ob("the operation behaves as specified in every configuration", key, "", "refuted" if bad else "undecided" if und else "proved", det, c))
    return out, {"configurations": sorted(cfgs), "operations_with_identical_code": nsame, "operations_analysed_separately": sum(len(d) for d in diffs.values())}

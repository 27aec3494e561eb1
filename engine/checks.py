"""One analysis run of one function: obligations by property, verdicts, escalation."""
import time, signal
import poly
from poly import P, ZERO, ONE, const, var, sym, name
import state as S
from state import St, I, B, UNIT, TRUE, FALSE, ge, eq, ne, f_and, f_or, f_not, iff
import interp, inputs, obs, specs, plans, term
from interp import Engine, Unsupported, Budget
from inputs import Ctx, Anchor
from obs import Part, Var, Odd, X, dec

ERRS = (Unsupported, Budget, Anchor, KeyError, AssertionError, IndexError, TypeError, AttributeError, ValueError, RecursionError, OverflowError, ZeroDivisionError, MemoryError)
IDX = ("Index", "Range"); PTR = ("PIndex", "PRange", "PSlice")
SKIPNAMES = {("Debug", "fmt"), ("Display", "fmt"), ("Error", "description")}

def last(p): return p.rsplit("::", 1)[-1]

class Finding:
    """verdict on one obligation class: worst over all states it was checked in"""
    __slots__ = ("prop", "label", "sp", "ok", "und", "bad")
    def __init__(self, prop, label, sp): self.prop = prop; self.label = label; self.sp = sp; self.ok = 0; self.und = []; self.bad = []
    def verdict(self): return "refuted" if self.bad else "undecided" if self.und else "proved"

def describe(e, st, env, ctx):
    """human readable witness: values of the input symbols"""
    d = {}
    for s, v in sorted(env.items()):
        n = name(s)
        if n.startswith(("addr_", "size_of<", "size_")): continue
        d[n] = v
    return d

class An:
    def __init__(self, facts, fn, cfg, props=None, mode="widen", unroll=3, budget=400000, unwind=False):
        self.facts = facts; self.fn = fn; self.cfg = cfg; self.props = props; self.mode = mode
        self.e = Engine(facts, unwind=unwind, mode=mode, unroll=unroll, budget=budget)
        self.res = {}; self.err = None
        self.outcomes = {}
        self.unwind = unwind
        self.panics = []; self.fun = set(); self.nconst = None
        if props is not None and "C26" in props: self.e.tm = term.Monitor(self)
    def want(self, prop): return self.props is None or prop in self.props
    # ------------------------------------------------------------ verdicts
    def check(self, prop, label, st, f, sp=""):
        if not self.want(prop) or self.e.mute: return
        k = (prop, label, sp)
        F = self.res.get(k)
        if F is None: F = self.res[k] = Finding(prop, label, sp)
        if st.entails(f): F.ok += 1; return
        if st.infeasible(): F.ok += 1; return
        self.judge(F, st, f)
    def judge(self, F, st, f):
        if self.e.debug: print("JUDGE", F.prop, F.label, F.sp, S.fshow(f), [repr(x) for x in st.cons], st.trace[-6:])
        if st.taint or st.approx:
            F.und.append("imprecise state (%s)" % ", ".join(sorted(st.taint | st.approx))); return
        w = st.witness(f_not(f))
        if w is None: F.und.append("no integer counterexample found"); return
        F.bad.append({"witness": describe(self.e, w[1], w[0], None), "path": list(w[1].trace)[-12:]})
    def engine_obl(self):
        tagprop = {"access": "C04", "ptrarith": "C04", "ub": "C04", "perm": "C05"}
        for tag, what, sp, verdict, st, f, stack in self.e.obl:
            p = tagprop.get(tag)
            if p is None: continue
            if verdict != "ok":
                # whatever the operation is to return, it is not guaranteed after undefined behaviour
                for q in sorted((self.fun | set(q for x in self.plans for q in x.props)) - {p, "C21", "C26", "C05"}):
                    if not self.want(q) or st.infeasible(): continue
                    k = (q, "the result is reached without undefined behaviour", sp)
                    F = self.res.get(k)
                    if F is None: F = self.res[k] = Finding(*k)
                    self.judge(F, st, f)
                    if F.bad: F.bad[-1]["what"] = what
            if not self.want(p): continue
            label = {"access": "unchecked access is inside the storage", "ptrarith": "pointer arithmetic stays inside the storage", "ub": "language-level precondition holds", "perm": "mutation only of storage that permits it"}[tag]
            k = (p, label, sp)
            F = self.res.get(k)
            if F is None: F = self.res[k] = Finding(p, label, sp)
            if verdict == "ok" or st.infeasible(): F.ok += 1
            else:
                n = len(F.bad)
                self.judge(F, st, f)
                if len(F.bad) > n: F.bad[-1]["what"] = what; F.bad[-1]["stack"] = [k for k, _ in stack][-6:]
    # ------------------------------------------------------------ running
    def prepare(self):
        """what is to be checked about this function: kind of its receiver, functional specification, monitors"""
        e = self.e; fn = self.fn; facts = self.facts
        c = Ctx(e, fn); self.c = c
        self.kind = c.kind(fn["self"]) if fn.get("self") is not None else None
        tr = last(fn["trait"]["path"]) if fn.get("trait") else None
        self.trait = tr
        if self.kind is None and fn.get("self") is not None:
            if tr in ("Trustworthy", "Contiguous", "ContiguousMut", "GetUnchecked", "GetUncheckedMut", "Pushable"): self.kind = "Storage"
            elif tr == "IndexRange":
                self.kind = {"core::ops::range::RangeFull": "RangeFull", "core::ops::range::RangeFrom": "RangeFrom", "core::ops::range::RangeTo": "RangeTo", "core::ops::range::Range": "Range_"}.get(facts["types"][fn["self"]].get("def"), None)
        self.spec = specs.lookup(self.kind, fn["name"], tr)
        self.plans = plans.for_fn(self)
        return c
    def run(self):
        e = self.e; fn = self.fn; facts = self.facts
        c = self.prepare()
        st = St()
        cur = [(st, [])]
        for i, t in enumerate(fn["ins"]):
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in c.value(s, t, "arg%d" % i)]
        for s, vs in cur:
            s.gh["#len0"] = {r: s.regs[r].len for r in s.regs}
            try: ins = [dec(c, s, v, t) for v, t in zip(vs, fn["ins"])]
            except Odd: ins = None
            if not self.precondition(c, s, vs, ins): continue
            x0 = X(self, c, fn, s, ins, vs, None, None)
            for p in self.plans: p.setup(x0)
            self.hooks()
            outs = e.run_body(fn["key"], facts["bodies"][fn["key"]], s, vs)
            for kind, s2, v in outs:
                self.outcomes[kind] = self.outcomes.get(kind, 0) + 1
                if s2.dead: continue
                if kind == "ret": self.at_ret(c, s2, ins, vs, v)
                elif kind == "panic": self.at_panic(c, s2, ins, vs, v)
                elif kind == "unwind":
                    for p in self.plans: p.unwound(X(self, c, fn, s2, ins, vs, None, None), v)
        self.engine_obl()
        if self.want("C21") and self.kind is not None and self.outcomes.get("ret", 0) and not self.e.mute:
            k = ("C21", "no panic on any path", "")
            if not any(q[0] == "C21" for q in self.res): self.res[k] = Finding(*k)
            if k in self.res: self.res[k].ok += self.outcomes["ret"]
        if self.want("C31") and self.free() and self.outcomes.get("ret", 0) and not self.e.mute:
            k = ("C31", "no panic on any path", "")
            if not any(q[0] == "C31" for q in self.res): self.res[k] = Finding(*k)
            if k in self.res: self.res[k].ok += self.outcomes["ret"]
        if not self.e.mute: self.spec_panics()
        return self
    def free(self): return self.kind is None and self.fn.get("self") is None and not self.fn["unsafe"]
    def spec_panics(self):
        """an operation that must return a documented result must not panic instead"""
        if self.fn["name"] == "subdivide" or not self.panics: return
        props = set(k for k in self.fun | set(q for p in self.plans for q in p.props) if self.want(k)) - {"C21", "C12", "C31"}
        for st, v in self.panics:
            what = v if isinstance(v, str) else str(v[0]); sp = "" if isinstance(v, str) else str(v[1])
            if any(what.startswith(m) for q in self.plans for m in q.mayfail): continue
            for p in sorted(props): self.check(p, "the operation returns instead of panicking (%s)" % what, st, FALSE, sp)
    def hooks(self):
        e = self.e; P_ = self.plans
        def user(e, st, c, args, t, sp):
            for p in P_:
                r = p.user(e, st, c, args, t, sp)
                if r is not None: return r
        def access(e, st, rid, off, n, kind, sp):
            cur = [st]
            for p in P_: cur = [s2 for s in cur for s2 in p.access(e, s, rid, off, n, kind, sp)]
            return cur
        def store(e, st, rid, off, v):
            cur = [st]
            for p in P_: cur = [s2 for s in cur for s2 in p.store(e, s, rid, off, v)]
            return cur
        def value(e, st, rid, off, v):
            for p in P_: p.value(e, st, rid, off, v)
        e.on_value = value if any(type(p).value is not plans.Plan.value for p in P_) else None
        e.on_user = user
        e.on_access = access if any(type(p).access is not plans.Plan.access for p in P_) else None
        e.on_store = store if any(type(p).store is not plans.Plan.store for p in P_) else None
    def precondition(self, c, s, vs, ins):
        """what callers of an unsafe function must guarantee (or a debug assertion on the whole input); False: not analysed"""
        fn = self.fn; n = fn["name"]
        if self.kind == "Storage" and ins is not None and n in ("xget_unchecked", "xget_unchecked_mut", "insert_unchecked"):
            ln = ins[0][3]
            s.add_ge(ln - ins[1] - (0 if n == "insert_unchecked" else 1))
            return not s.dead
        if n.startswith("merge_internal") and self.cfg == "on":
            s.add_ge(s.regs[vs[0][1]].len - 1)
        if fn["unsafe"]: raise Unsupported("unsafe function without a stated precondition")
        return True
    def at_ret(self, c, st, ins, vs, v):
        fn = self.fn; e = self.e
        parts = []
        c.particles(st, v, fn["out"], "result", parts)
        for i, (t, a) in enumerate(zip(fn["ins"], vs)):
            tt = c.T[t]
            if tt["k"] == "ref" and tt["mut"] and a[0] == "r": c.particles(st, a, t, "argument %d" % i, parts)
        for where, kind, t, pv, _ in parts: self.particle(c, st, t, pv, where)
        # lengths only grow
        if self.want("C06"):
            for b, rid in c.brands.items():
                if rid in st.gh["#len0"] and rid in st.regs:
                    self.check("C06", "the container is not shorter afterwards", st, ge(st.regs[rid].len - st.gh["#len0"][rid]))
            if self.kind == "Storage":
                for rid in st.gh["#len0"]:
                    if rid in st.regs: self.check("C06", "the storage is not shorter afterwards", st, ge(st.regs[rid].len - st.gh["#len0"][rid]))
        x = None
        if self.spec or self.plans:
            try:
                if ins is None: raise Odd("inputs")
                out = dec(c, st, v, fn["out"])
                x = X(self, c, fn, st, ins, vs, out, v)
            except (Odd,) as ex:
                self.undecided("result not understood: %s" % ex); x = None
        if x is not None and self.spec:
            try: self.spec(x)
            except (Odd, KeyError, IndexError, TypeError, AttributeError) as ex: self.undecided("specification not applicable: %s %s" % (type(ex).__name__, ex))
        if x is not None:
            for p in self.plans:
                try: p.end(x)
                except (Odd,) as ex: self.undecided("monitor not applicable: %s" % ex)
    def undecided(self, why):
        k = ("*", why, "")
        if k not in self.res: self.res[k] = Finding("*", why, "")
        self.res[k].und.append(why)
    def particle(self, c, st, t, v, where):
        k = c.kind(t)
        iv = c.interval(st, t, v)
        ne_ = c.proof(t) == "NonEmpty"
        b = c.brand(t)
        base = "C02" if k in IDX else "C17"
        pne = "C03" if k in IDX else "C17"
        if iv is None: self.undecided("particle value not understood in " + where); return
        rid, lo, hi = iv
        lo = st.norm(lo); hi = None if hi is None else st.norm(hi)
        own = c.brands.get(b)
        if k in PTR:
            if rid == "mixed" : self.check("C17", "%s: both ends point into the same container" % where, st, FALSE); return
            if own is not None: self.check("C17", "%s: points into the container of its brand" % where, st, TRUE if rid == own else FALSE)
            own = rid
        if own is None: return
        L = st.regs[own].len
        if hi is None:
            self.check(base, "%s: position is within the container" % where, st, f_and(ge(lo), ge(L - lo)))
            if ne_: self.check(pne, "%s: a NonEmpty position can be dereferenced" % where, st, f_and(ge(lo), ge(L - lo - 1)))
        else:
            self.check(base, "%s: start <= end <= length" % where, st, f_and(ge(lo), ge(hi - lo), ge(L - hi)))
            if ne_: self.check(pne, "%s: a NonEmpty range contains an element" % where, st, ge(hi - lo - 1))
    def at_panic(self, c, st, ins, vs, v):
        if not (self.kind == "Storage" and self.fn["name"] == "insert_unchecked"): self.panics.append((st, v))
        if self.want("C31") and self.free():
            what = v if isinstance(v, str) else str(v[0]); sp = "" if isinstance(v, str) else str(v[1]); n = self.fn["name"]
            if n.startswith("zip_dot") and what.startswith("overflow"): return          # of the products or their sum
            if n == "insertion_sort2_indexes":
                self.check("C31", "panics only for slices of different lengths", st, f_not(eq(st.norm(vs[0][3] - vs[1][3]))), sp); return
            self.check("C31", "no panic (%s)" % what, st, FALSE, sp); return
        if not self.want("C21") or self.kind is None or self.kind == "Storage" and self.fn["name"] in ("insert_unchecked",): return
        if self.fn["name"] == "subdivide" and ins is not None:
            self.check("C21", "panics only for subdivide(0)", st, eq(st.norm(ins[1]))); return
        what = v if isinstance(v, str) else str(v[0])
        sp = "" if isinstance(v, str) else str(v[1])
        self.check("C21", "no panic (%s)" % what, st, FALSE, sp)

def relevant(facts, fn, cfg, prop):
    """does the analysis of fn produce obligations of property prop?"""
    a = An(facts, fn, cfg, {prop}, unwind=prop == "C12")
    a.prepare()
    if prop == "C12": return bool(a.plans)
    if prop == "C26": return term.loopy(facts, fn["key"], facts.setdefault("#loopy", {}))
    if prop == "C31": return a.free()
    if prop in AUTO: return prop != "C21" or a.kind is not None
    return a.spec is not None or bool(a.plans)
AUTO = ("C02", "C03", "C04", "C05", "C06", "C17", "C21")

def timed(f, secs):
    def h(*x): raise TimeoutError()
    signal.signal(signal.SIGALRM, h); signal.alarm(int(secs))
    try: return f()
    finally: signal.alarm(0)

def analyse(facts, fn, cfg, props=None, deadline=None, unrolls=(1, 2, 3), unwind=False, budget=400000, cls=None, stage=150):
    """-> dict: verdicts per obligation, statistics"""
    t0 = time.time(); cls = cls or An
    info = {"fn": fn["key"], "cfg": cfg, "err": None, "modes": []}
    best = {}
    a = cls(facts, fn, cfg, props, "widen", 3, budget, unwind)
    nest = None
    try:
        timed(a.run, stage)
        info["modes"].append("invariants")
    except ERRS as ex:
        nest = "%s: %s" % (type(ex).__name__, ex)
        info["err"] = nest
    except TimeoutError:
        nest = info["err"] = "time limit of %d s" % stage
    info["steps"] = a.e.steps; info["visited"] = sorted(a.e.visited); info["outcomes"] = dict(a.outcomes); info["loops"] = len(a.e.loopstat)
    for k, F in a.res.items(): best[k] = F
    need = nest is not None or any(F.verdict() == "undecided" for F in best.values())
    if need and not any(F.bad for F in best.values()):
        for k in unrolls:
            if deadline is not None and time.time() > deadline: break
            b = cls(facts, fn, cfg, props, "unroll", k[1] if isinstance(k, tuple) else k, budget, unwind)
            if isinstance(k, tuple): b.nconst = k[0]; k = "%d (n = %s)" % (k[1], k[0])
            try: timed(b.run, stage if isinstance(k, str) or k < 4 else stage / 2)
            except ERRS as ex: info["modes"].append("unroll %s: %s" % (k, ex)); 
            except TimeoutError: info["modes"].append("unroll %s: time limit" % k)
            else: info["modes"].append("unroll %s" % k)
            hit = False
            for kk, F in b.res.items():
                if F.bad:
                    hit = True
                    if kk in best: best[kk].bad += F.bad
                    else: best[kk] = F
                elif nest is not None:
                    # invariants could not be computed: bounded results never count as proof
                    G = best.get(kk)
                    if G is None: G = best[kk] = Finding(*kk)
                    if not G.und: G.und.append("only explored up to %s iterations" % k)
            if hit or not b.e.truncated and not isinstance(k, str): break
    info["res"] = [(F.prop, F.label, F.sp, F.verdict(), F.ok, (F.bad or F.und)[:2]) for F in best.values()]
    info["t"] = time.time() - t0
    return info

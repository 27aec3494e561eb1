"""Iterators of particles: every state an iterator can be in is reached from a constructor (a function that returns it)
by a sequence of calls of its methods, so the methods are analysed inside a synthetic loop `it = ctor(..); loop { any
method }` whose invariant relates the iterator's fields to ghosts that say what the iterator must still yield."""
import poly
from poly import P, ZERO, ONE, const, var, sym
import state as S
from state import St, I, B, UNIT, TRUE, FALSE, ge, eq, ne, f_and, f_or, f_not, iff
from interp import Unsupported
from inputs import Ctx, Anchor
from obs import Part, Var, Odd, X, dec
from specs import lt, le
import checks, loops
from checks import An, last

ITERS = ("RangeIter", "PRangeIter", "Subdivide")
def iter_type(facts, t):
    """kind of iterator behind references, or None"""
    T = facts["types"]
    while T[t]["k"] == "ref": t = T[t]["to"]
    if T[t]["k"] == "adt" and T[t]["def"].startswith("indexing::"):
        n = T[t]["def"].rsplit("::", 1)[-1]
        if n in ITERS: return n
    return None
def constructors(facts):
    out = []
    for fn in facts["fns"]:
        if not fn["exported"] or fn["key"] not in facts["bodies"]: continue
        T = facts["types"]
        if T[fn["out"]]["k"] == "adt" and iter_type(facts, fn["out"]) and not any(iter_type(facts, t) for t in fn["ins"]): out.append(fn)
    return out
def methods(facts, kind):
    return [fn for fn in facts["fns"] if fn["exported"] and fn["key"] in facts["bodies"] and fn["name"] != "fmt" and fn["ins"] and iter_type(facts, fn["ins"][0]) == kind]

class IterAn(An):
    def __init__(self, facts, fn, cfg, props=None, mode="widen", unroll=3, budget=400000, unwind=False, nconst=None):
        An.__init__(self, facts, fn, cfg, props, mode, unroll, budget, unwind)
        self.nconst = nconst
    def run(self):
        e = self.e; fn = self.fn; facts = self.facts
        self.spec = None; self.plans = []; self.kind = "Iter"; self.trait = None
        self.ik = iter_type(facts, fn["out"])
        self.pick = "C16" if self.ik != "Subdivide" else "C11"
        c = Ctx(e, fn); self.c = c
        st = St(); cur = [(st, [])]
        for i, t in enumerate(fn["ins"]):
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in c.value(s, t, "arg%d" % i)]
        self.ms = methods(facts, self.ik)
        brand = c.brand(fn["out"])
        for s, vs in cur:
            s.gh["#len0"] = {r: s.regs[r].len for r in s.regs}
            ins = [dec(c, s, v, t) for v, t in zip(vs, fn["ins"])]
            r = ins[0]
            if not isinstance(r, Part) or r.hi is None: raise Odd("constructor of an iterator from %r" % (r,))
            lo, hi, n = r.lo, r.hi, None
            if self.ik == "Subdivide":
                n = ins[1]
                if not isinstance(n, P): raise Odd("subdivide argument")
                if self.nconst is not None: s.add_eq(n - self.nconst); n = s.norm(n)
                s.add_ge(n - 1)
                if s.dead: continue
                # what must come out: n pieces of length q or q+1 when n <= len, else nothing
                starts = []
                for s2 in s.sat_states(le(n, hi - lo)):
                    for s3, q, rem in e.divmod_(s2, hi - lo, n): starts.append((s3, n, q))
                for s2 in s.sat_states(lt(hi - lo, n)): starts.append((s2, ZERO, ZERO))
            else: starts = [(s, None, None)]
            for s2, cnt, q in starts:
                if s2.dead: continue
                s2.gh["lo"] = s2.norm(lo); s2.gh["hi"] = s2.norm(hi)
                if cnt is not None:
                    s2.gh["cnt"] = ZERO; s2.gh["#q"] = q; s2.gh["#n"] = s2.norm(cnt); s2.gh["#d"] = s2.norm(ins[1]); s2.gh["#L"] = s2.norm(hi - lo)
                for kind, s3, v in e.run_body(fn["key"], facts["bodies"][fn["key"]], s2, vs):
                    if s3.dead: continue
                    if kind == "panic": self.at_panic(c, s3, ins, vs, v)
                    if kind != "ret": continue
                    cell = e.newcell(s3, v)
                    self.loop(s3, cell, brand, c)
        self.engine_obl()
        return self
    def at_panic(self, c, st, ins, vs, v):
        what = v if isinstance(v, str) else str(v[0]); sp = "" if isinstance(v, str) else str(v[1])
        if ins is None: self.check(self.pick, "an operation of the iterator returns instead of panicking (%s)" % what, st, FALSE, sp)
        if not self.want("C21"): return
        self.check("C21", "no panic (%s)" % what, st, FALSE, sp)
    def loop(self, st, cell, brand, c0):
        def run(s): return self.step(s, cell, brand, c0)
        if self.mode == "unroll":
            cur = [st]
            for k in range(self.e.unroll + 1):
                nxt = []
                for s in cur: nxt += [x[2] for x in run(s) if x[0] == "back"]
                cur = nxt
                if not cur: return
            self.e.truncated = True
        else: loops.widen(self.e, st, run, self.ik)
    def step(self, st, cell, brand, c0):
        e = self.e; out = []
        for m in self.ms:
            s = st.fork()
            c = Ctx(e, m)
            b = c.brand_of_iter(m["ins"][0])
            if brand in c0.brands and b is not None: c.brands[b] = c0.brands[brand]
            t0 = self.facts["types"][m["ins"][0]]
            mut = t0["k"] == "ref" and t0["mut"]
            a0 = ("r", cell, ()) if t0["k"] == "ref" else s.mem[cell]
            # cases by whether pieces are still due: a fact the products can use directly
            if "cnt" in s.gh: cur = [(s2, [a0]) for f in (lt(s.gh["cnt"], s.gh["#n"]), le(s.gh["#n"], s.gh["cnt"])) for s2 in s.sat_states(f)]
            else: cur = [(s, [a0])]
            try:
                for i, t in enumerate(m["ins"][1:]):
                    cur = [(s2, vs + [v]) for s1, vs in cur for s2, v in c.value(s1, t, "arg%d" % (i + 1))]
            except Unsupported: continue
            for s1, vs in cur:
                if not mut and e.mute: continue
                try: outs = e.run_body(m["key"], self.facts["bodies"][m["key"]], s1, vs)
                except Unsupported as ex:
                    if mut: raise
                    self.undecided("%s: %s" % (m["name"], ex)); continue
                for kind, s2, v in outs:
                    if s2.dead: continue
                    if kind == "panic":
                        self.at_panic(c, s2, None, vs, v); continue
                    if kind != "ret": continue
                    parts = []
                    c.particles(s2, v, m["out"], "result of %s" % m["name"], parts)
                    for where, k, t, pv, _ in parts: self.particle(c, s2, t, pv, where)
                    for s3 in self.judge_method(c, s2, m, vs, v, cell):
                        if mut: out.append(("back", None, s3))
        return out
    def need(self, label, st, f): self.check(self.pick, label, st, f)
    def judge_method(self, c, st, m, vs, v, cell):
        """check the outcome of one call against the ghosts; -> states with the ghosts updated"""
        n = m["name"]; lo, hi = st.gh["lo"], st.gh["hi"]
        tr = last(m["trait"]["path"]) if m.get("trait") else None
        try: out = dec(c, st, v, m["out"])
        except Odd:
            out = None
        x = X(self, c, m, st, [], vs, out, v)
        if tr == "Clone" and n == "clone":
            self.need("a clone of the iterator is in the same state", st, self.sameval(st, v, st.mem[cell])); return [st]
        if self.ik == "Subdivide": return self.judge_subdivide(c, st, m, n, out, lo, hi)
        if n in ("next", "next_back", "nth", "nth_back") and tr in ("Iterator", "DoubleEndedIterator"):
            if not isinstance(out, Var): raise Odd("result of " + n)
            k = ZERO
            if n.startswith("nth"): k = vs[1][1]
            back = n.endswith("_back")
            if out.n == "Some":
                pos = hi - 1 - k if back else lo + k
                self.need("%s yields an element only while one is left" % n, st, lt(lo + k, hi))
                self.need("%s yields exactly the next position" % n, st, f_and(self.at(st, out.fs[0], pos)))
                if back: st.gh["hi"] = st.norm(pos)
                else: st.gh["lo"] = st.norm(pos + 1)
            else:
                self.need("%s yields None only when nothing is left" % n, st, le(hi, lo + k))
                if n.startswith("nth"):
                    if back: st.gh["hi"] = lo
                    else: st.gh["lo"] = hi
            return [st]
        if n == "into_range":
            if not isinstance(out, Part): raise Odd("into_range")
            self.need("into_range is exactly the part not yet yielded", st, f_and(self.at(st, out, lo), eq(st.norm(out.hi - hi)))); return [st]
        if n == "len" and tr == "ExactSizeIterator": self.need("len is the exact number of remaining positions", st, eq(st.norm(out - (hi - lo)))); return [st]
        if n == "count" and tr == "Iterator": self.need("count is the number of remaining positions", st, eq(st.norm(out - (hi - lo)))); return [st]
        if n == "size_hint":
            a, b = out
            exact = any(last(f["trait"]["path"]) == "ExactSizeIterator" for f in self.ms if f.get("trait"))
            self.need("the lower size hint does not exceed what is left", st, eq(st.norm(a - (hi - lo))) if exact else le(a, hi - lo))
            if b.n == "Some": self.need("the upper size hint is not below what is left", st, eq(st.norm(b.fs[0] - (hi - lo))) if exact else le(hi - lo, b.fs[0]))
            return [st]
        if n == "last" and tr == "Iterator":
            if out.n == "Some": self.need("last is the last remaining position", st, f_and(lt(lo, hi), self.at(st, out.fs[0], hi - 1)))
            else: self.need("last is None only when nothing is left", st, le(hi, lo))
            return [st]
        t0 = self.facts["types"][m["ins"][0]]
        if t0["k"] == "ref" and t0["mut"]: self.undecided("effect of %s on the iterator is not specified" % n); return []
        return [st]
    def at(self, st, p, pos):
        if not isinstance(p, Part): return FALSE
        return eq(st.norm(p.lo - pos))
    def judge_subdivide(self, c, st, m, n, out, lo, hi):
        cnt = st.gh["cnt"]; q = st.gh["#q"]; N = st.gh["#n"]
        if n == "next":
            if not isinstance(out, Var): raise Odd("result of next")
            if out.n == "Some":
                r = out.fs[0]
                if not isinstance(r, Part) or r.hi is None: raise Odd("subdivide item")
                self.need("not more than the requested number of pieces", st, lt(cnt, N))
                self.need("a piece starts where the previous one ended", st, eq(st.norm(r.lo - lo)))
                self.need("piece lengths differ by at most one", st, f_and(ge(st.norm(r.hi - r.lo - q)), ge(st.norm(q + 1 - (r.hi - r.lo)))))
                self.need("a piece is nonempty", st, lt(r.lo, r.hi))
                st.gh["lo"] = st.norm(r.hi); st.gh["cnt"] = st.norm(cnt + 1)
                self.need("the pieces stay inside the range", st, le(r.hi, hi))
            else:
                self.need("not fewer than the requested number of pieces", st, eq(st.norm(cnt - N)))
                if N.d: self.need("the pieces cover the whole range", st, eq(st.norm(lo - hi)))
            return [st]
        if n == "size_hint":
            a, b = out
            self.need("the lower size hint does not exceed what is left", st, le(a, N - cnt))
            if b.n == "Some": self.need("the upper size hint is not below what is left", st, le(N - cnt, b.fs[0]))
            return [st]
        if n in ("len", "count"): self.need("%s is the number of remaining pieces" % n, st, eq(st.norm(out - (N - cnt)))); return [st]
        t0 = self.facts["types"][m["ins"][0]]
        if t0["k"] == "ref" and t0["mut"]: self.undecided("effect of %s on the iterator is not specified" % n); return []
        return [st]
    def sameval(self, st, a, b):
        if a[0] == "i" and b[0] == "i": return eq(st.norm(a[1] - b[1]))
        if a[0] == "p" and b[0] == "p": return eq(st.norm(a[2] - b[2])) if a[1] == b[1] else FALSE
        if a[0] == "s" and b[0] == "s" and len(a[1]) == len(b[1]): return f_and(*[self.sameval(st, x, y) for x, y in zip(a[1], b[1])])
        return TRUE if a == b else FALSE

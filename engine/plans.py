"""Ghost monitors: properties of what a function does on the way (calls of user code, element accesses), stated over ghost
variables that the analysis carries through loops like program variables."""
import state as S
from poly import P, ZERO, ONE, const, var, sym
from state import I, B, TRUE, FALSE, ge, eq, ne, f_and, f_or, f_not, iff
from obs import Part, Var, X, Odd, dec
from specs import lt, le

class Plan:
    props = ()
    mayfail = ()        # panics that are part of the documented behaviour
    def __init__(self, an): self.an = an; self.e = an.e
    def setup(self, x): pass
    def user(self, e, st, c, args, t, sp): return None
    def access(self, e, st, rid, off, n, kind, sp): return [st]
    def store(self, e, st, rid, off, v): return [st]
    def value(self, e, st, rid, off, v): return
    def end(self, x): pass
    def unwound(self, x, why): pass
    def need(self, prop, label, st, f, sp=""): self.an.check(prop, label, st, f, sp)

def closure_args(c, args):
    """arguments of a call of a user closure, or None"""
    if c.get("method") in ("call_once", "call_mut", "call") and len(args) == 2 and args[1][0] == "s": return list(args[1][1])
    return None
def elt_ref(e, st, v):
    """(rid, pos) of a reference/pointer to an element, through references to locals"""
    n = 0
    while v[0] == "r" and n < 4 and v[1] in st.mem: v = e.get(st.mem[v[1]], v[2]); n += 1
    if v[0] == "p": return v[1], st.norm(v[2])
    return None
def bool_answers(st): return [(st.fork(), B(TRUE), True), (st.fork(), B(FALSE), False)]
ORD = ("Less", "Equal", "Greater")
def ord_answers(e, st, tyix):
    """[(state, value, name or None)] for a result of type Ordering or Option<Ordering>"""
    tt = e.ty[tyix]
    if tt["k"] == "bool": return None
    if tt["k"] != "adt": return None
    if tt["def"].endswith("cmp::Ordering"): return [(st.fork(), ("e", i, ()), v["n"]) for i, v in enumerate(tt["variants"])]
    if tt["def"].endswith("option::Option"):
        inner = tt["variants"][1]["f"][0]["t"]
        o = ord_answers(e, st, inner)
        if o is None: return None
        return [(st.fork(), ("e", 0, ()), None)] + [(s, ("e", 1, (v,)), n) for s, v, n in o]
    return None

# ------------------------------------------------------------------ C10 scans
class Scan(Plan):
    props = ("C10",)
    def setup(self, x):
        n = self.an.fn["name"]
        p = x.ins[1]
        self.rid = x.rid(); L = x.length()
        if n == "scan_from": nx, self.lim, self.d = p.lo + 1, L, 1
        elif n in ("scan_from_rev", "scan_tail_"): nx, self.lim, self.d = p.lo - 1, const(-1), -1
        elif n in ("scan_range", "scan_pointer_range"): nx, self.lim, self.d = p.lo, p.hi, 1
        else: nx, self.lim, self.d = p.hi - 1, p.lo - 1, -1
        x.st.gh["nx"] = x.n(nx); x.st.gh["stop"] = False
    def user(self, e, st, c, args, t, sp):
        a = closure_args(c, args)
        if a is None or len(a) != 1: return None
        r = elt_ref(e, st, a[0])
        if r is None: return None
        nx = st.gh["nx"]
        lab = "the closure sees consecutive elements outward from the start, each once, and nothing after a rejection"
        if st.gh["stop"]: f = FALSE
        else: f = f_and(TRUE if r[0] == self.rid else FALSE, eq(st.norm(r[1] - nx)), lt(st.norm(nx), st.norm(self.lim)) if self.d > 0 else lt(st.norm(self.lim), st.norm(nx)))
        self.need("C10", lab, st, f)
        out = []
        for s, v, yes in bool_answers(st):
            if yes: s.gh["nx"] = s.norm(nx + self.d)
            else: s.gh["stop"] = True
            out.append(("ret", s, v))
        return out
    def end(self, x):
        st = x.st; n = self.an.fn["name"]; p = x.ins[1]
        nx = x.n(st.gh["nx"])
        if not st.gh["stop"]: x.need("C10", "the scan stops only after a rejection or at the end", eq(x.n(nx - self.lim)))
        if n == "scan_from": w = [(x.out, p.lo, nx)]
        elif n in ("scan_from_rev", "scan_tail_"): w = [(x.out, nx + 1, p.lo + 1)]
        elif self.d > 0: w = [(x.out[0], p.lo, nx), (x.out[1], nx, p.hi)]
        else: w = [(x.out[0], p.lo, nx + 1), (x.out[1], nx + 1, p.hi)]
        for i, (o, lo, hi) in enumerate(w):
            x.need("C10", "the %s range is exactly the %s elements" % (("returned", "accepted") if len(w) == 1 else (("first", "second")[i], "documented")), x.same(o, lo, hi))
# ------------------------------------------------------------------ C14 searches
class Search(Plan):
    props = ("C14",)
    def setup(self, x):
        st = x.st
        self.on = False
        a = x.ins[0]
        if isinstance(a, Part): self.rid, self.lo, self.hi = x.rid(1), a.lo, a.hi
        else: self.rid, self.lo, self.hi = a[1], a[2], a[2] + a[3]
        self.on = True
        self.bound = self.an.fn["name"].startswith("lower_bound")
        st.gh["gL"] = x.n(self.lo); st.gh["gG"] = x.n(self.hi); st.gh["gE"] = const(-1)
        if self.an.mode == "unroll": st.gh["rep"] = ()
        self.fix = self.an.nconst if isinstance(self.an.nconst, Answers) else None
        if self.fix: st.add_eq(x.n(self.hi - self.lo) - self.fix.n)
    def report(self, s, pos, n):
        if n == "Less": s.gh["gL"] = s.norm(pos + 1)
        elif n == "Equal":
            s.gh["gG" if self.bound else "gE"] = s.norm(pos)
        else: s.gh["gG"] = s.norm(pos)
        if "rep" in s.gh: s.gh["rep"] = s.gh["rep"] + ((n, s.norm(pos)),)
    def user(self, e, st, c, args, t, sp):
        if not self.on: return None
        out = self.answers(e, st, c, args, t, sp)
        if self.fix and out is not None:
            # one schedule of answers only
            k = len(st.gh["rep"]); w = self.fix.at(k)
            out = [o for o in out if o[1].gh["rep"][k][0] == w] or [o for o in out if o[1].gh["rep"][k][0] == "Greater"]
        return out
    def answers(self, e, st, c, args, t, sp):
        a = closure_args(c, args)
        m = c.get("method")
        out = []
        if a is not None and len(a) == 1:
            r = elt_ref(e, st, a[0])
            if r is None or r[0] != self.rid: return None
            o = ord_answers(e, st, t["dt"])
            if o is None:
                for s, v, yes in bool_answers(st): self.report(s, r[1], "Less" if yes else "Greater"); out.append(("ret", s, v))
                return out
            for s, v, n in o: self.report(s, r[1], n); out.append(("ret", s, v))
            return out
        tr = (c.get("trait") or "").rsplit("::", 1)[-1]
        if tr in ("Ord", "PartialOrd") and len(args) == 2:
            r0, r1 = elt_ref(e, st, args[0]), elt_ref(e, st, args[1])
            first = r0 is not None and r0[0] == self.rid
            r = r0 if first else r1
            if r is None or r[0] != self.rid: return None
            if m in ("cmp", "partial_cmp"):
                for s, v, n in ord_answers(e, st, t["dt"]) or ():
                    if n is None: n = "Greater"
                    if not first: n = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[n]
                    self.report(s, r[1], n); out.append(("ret", s, v))
                return out
            less = {("lt", True): True, ("gt", False): True, ("le", False): False, ("ge", True): False}.get((m, first))
            if less is None: return None       # e.g. le(elt of slice, key): Less or Equal
            for s, v, yes in bool_answers(st):
                self.report(s, r[1], "Less" if yes == less else "Greater"); out.append(("ret", s, v))
            return out
        if tr == "PartialEq" and len(args) == 2:
            r0, r1 = elt_ref(e, st, args[0]), elt_ref(e, st, args[1])
            r = r0 if r0 is not None and r0[0] == self.rid else r1
            if r is None or r[0] != self.rid: return None
            for s, v, yes in bool_answers(st):
                if yes == (m == "eq"): self.report(s, r[1], "Equal")
                out.append(("ret", s, v))
            return out
        return None
    def end(self, x):
        st = x.st
        o = x.out
        ok = isinstance(o, Var) and o.n == "Ok"
        v = o.fs[0] if isinstance(o, Var) else o
        p = v.lo if isinstance(v, Part) else v
        if not isinstance(p, P): raise Odd("search result")
        p = x.n(p)
        x.need("C14", "the returned position is within the searched part", f_and(ge(x.n(p - self.lo)), ge(x.n(self.hi - p))))
        if "rep" in st.gh:
            rep = st.gh["rep"]
            at = lambda n, q: f_or(*[eq(x.n(pos - q)) for m, pos in rep if m in n])
            fo = at(("Equal",), p)
            fe = f_and(f_or(eq(x.n(p - self.lo)), at(("Less",), p - 1)), f_or(eq(x.n(p - self.hi)), at(("Greater", "Equal") if self.bound else ("Greater",), p)))
        else:
            fo = eq(x.n(p - st.gh["gE"]))
            fe = f_and(f_or(eq(x.n(p - self.lo)), eq(x.n(p - st.gh["gL"]))), f_or(eq(x.n(p - self.hi)), eq(x.n(p - st.gh["gG"]))))
        if ok: x.need("C14", "Ok only for a position where the comparison reported Equal", fo)
        else: x.need("C14", "the position is bracketed: before it compared less (or the beginning), at it not less (or the end)", fe)
class Answers:
    """a searched part of n elements and the answers of the comparison, in turn (the pattern repeats)"""
    def __init__(self, n, pat): self.n = n; self.pat = pat
    def at(self, k): return {"L": "Less", "G": "Greater", "E": "Equal"}[self.pat[k % len(self.pat)]]
    def __str__(self): return "%d, answers %s..." % (self.n, self.pat)
def schedules(tier):
    """where a counterexample is looked for when the proof of a search fails: [(Answers, limit of iterations)]"""
    import random
    rnd = random.Random(1); out = []
    for n in [*range(0, 20), 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 1 << 16, (1 << 20) + 7]:
        ps = ["L", "G", "LG", "GL", "LLG", "GGL", "E", "LE", "GE", "LGE"] + ["".join(rnd.choice("LG") for _ in range(24)) for _ in range(4 if tier == "quick" else 20)]
        out += [(Answers(n, p), 2 * n.bit_length() + 6) for p in ps]
    return out
class Halving(Search):
    """each comparison at least halves what is left: gW is what may be left if the budget of floor(log2 n) + 2 comparisons holds"""
    props = ("C30",)
    def setup(self, x):
        Search.setup(self, x)
        x.st.gh["gW"] = x.n(2 * (self.hi - self.lo) + 1)
        if self.fix: x.st.gh["gW"] = const(2 * self.fix.n + 1)
    def user(self, e, st, c, args, t, sp):
        w = st.gh["gW"]; s = st.fork()
        q = var(sym("half"))
        if self.fix: q = const(w.cval() // 2)
        s.add_ge(w - 2 * q); s.add_ge(2 * q + 1 - w); s.gh["gW"] = s.norm(q)
        r = Search.user(self, e, s, c, args, t, sp)
        if r is None: return None
        self.need("C30", "no comparison is made on an empty range", st, ge(st.norm(self.hi - self.lo - 1)), sp)
        self.need("C30", "at most floor(log2 n) + 2 comparisons are made", st, ge(st.norm(w - 1)), sp)
        return r
    def end(self, x): self.an.check("C30", "the search returns", x.st, TRUE)
# ------------------------------------------------------------------ C24 zips
class Zip(Plan):
    props = ("C24",)
    def setup(self, x):
        st = x.st
        if self.an.fn["name"] == "zip_mut_raw":
            self.a = (x.rid(), x.ins[1].lo, x.ins[1].hi); self.b = (x.rid(), x.ins[2].lo, x.ins[2].hi)
        else:
            self.a = x.vs[0][1:]; self.b = x.vs[2][1:]
        st.gh["k"] = ZERO
    def user(self, e, st, c, args, t, sp):
        a = closure_args(c, args)
        if a is None or len(a) != 2: return None
        ra, rb = elt_ref(e, st, a[0]), elt_ref(e, st, a[1])
        if ra is None or rb is None: raise_odd = None; return None
        k = st.gh["k"]
        self.need("C24", "call number k gets element k of the first range", st, f_and(TRUE if ra[0] == self.a[0] else FALSE, eq(st.norm(ra[1] - self.a[1] - k)), ge(st.norm(self.a[2] - self.a[1] - k - 1))))
        self.need("C24", "call number k gets element k of the second range", st, f_and(TRUE if rb[0] == self.b[0] else FALSE, eq(st.norm(rb[1] - self.b[1] - k)), ge(st.norm(self.b[2] - self.b[1] - k - 1))))
        st.gh["k"] = st.norm(k + 1)
        return [("ret", st, I(0) if False else ("s", ()))]
    def end(self, x):
        k = x.n(x.st.gh["k"])
        n, m = x.n(self.a[2] - self.a[1]), x.n(self.b[2] - self.b[1])
        x.need("C24", "the number of calls is the length of the shorter range", f_or(f_and(eq(x.n(k - n)), le(n, m)), f_and(eq(x.n(k - m)), le(m, n))))
class Copy(Plan):
    """copy(xs, ys): element k of xs is stored at position k of ys, for every k below both lengths"""
    props = ("C24",)
    def setup(self, x):
        self.xs, self.ys = x.ins[0][1], x.ins[1][1]
        self.n, self.m = x.ins[0][3], x.ins[1][3]
        x.st.gh["k"] = ZERO
        x.st.gh["odd"] = False
    def store(self, e, st, rid, off, v):
        if rid != self.ys: return [st]
        k = st.gh["k"]
        self.need("C24", "store number k goes to position k", st, eq(st.norm(off - k)))
        ok = v[0] == "o" and v[1] == "tok" and v[2] == e.ri[self.xs].ver0
        self.need("C24", "store number k stores element k of the source", st, eq(st.norm(v[3] - k)) if ok else FALSE)
        st.gh["k"] = st.norm(k + 1)
        return [st]
    def access(self, e, st, rid, off, n, kind, sp):
        if kind == "copy-to" and rid == self.ys: st.gh["odd"] = True
        return [st]
    def end(self, x):
        st = x.st
        n, m = self.n, self.m
        if st.gh["odd"]:
            k = var(sym("k"))
            s0 = st.fork(); s0.add_ge(k); s0.add_ge(s0.regs[self.ys].len - k - 1)
            for f, ver in ((lt(k, n), x.e.ri[self.xs].ver0), (le(n, k), x.e.ri[self.ys].ver0)):
                for s in s0.sat_states(f):
                    for s2, tok in x.e.content_at(s, self.ys, k):
                        ok = tok[0] == "o" and tok[1] == "tok" and tok[2] == ver
                        self.need("C24", "position k of the target holds element k of the source", s2, eq(s2.norm(tok[3] - k)) if ok else FALSE)
            return
        k = x.n(st.gh["k"])
        x.need("C24", "the number of stores is the length of the shorter slice", f_or(f_and(eq(x.n(k - n)), le(n, m)), f_and(eq(x.n(k - m)), le(m, n))))
class Dot(Plan):
    props = ("C24",)
    mayfail = ("overflow",)     # of the sum, which depends on the values alone
    def setup(self, x):
        self.r = (x.ins[0][1], x.ins[1][1]); self.len = (x.ins[0][3], x.ins[1][3])
        x.st.gh["kx"] = ZERO; x.st.gh["ky"] = ZERO
        if len(x.ins) == 2 and self.an.facts["types"][self.an.fn["out"]]["k"] == "int":
            x.st.gh["gG"] = ZERO; self.e.nowrap = -2**31
    def value(self, e, st, rid, off, v):
        """the value of an element is known: once both of a pair are, their product counts"""
        if "gG" not in st.gh or rid not in self.r or v[0] != "i": return
        w = st.gh.get("#pend")
        if w is None: st.gh["#pend"] = (rid, v[1]); return
        if w[0] == rid: st.approx = st.approx | {"elements not read in pairs"}; return
        st.gh["gG"] = st.norm(st.gh["gG"] + w[1] * v[1]); st.gh["#pend"] = None
    def access(self, e, st, rid, off, n, kind, sp):
        if kind != "read" or rid not in self.r: return [st]
        g = "kx" if rid == self.r[0] else "ky"
        k = st.gh[g]
        self.need("C24", "elements are read in order, each once", st, eq(st.norm(off - k)))
        st.gh[g] = st.norm(k + 1)
        return [st]
    def end(self, x):
        kx, ky = x.n(x.st.gh["kx"]), x.n(x.st.gh["ky"]); n, m = self.len
        x.need("C24", "exactly the pairs up to the shorter length are read", f_and(eq(x.n(kx - ky)), f_or(f_and(eq(x.n(kx - n)), le(n, m)), f_and(eq(x.n(kx - m)), le(m, n)))))
        if "gG" in x.st.gh:
            if not isinstance(x.out, P): raise Odd("result of a dot product")
            x.need("C24", "the result is the sum of the products of the pairs", eq(x.n(x.out - x.st.gh["gG"])))
# ------------------------------------------------------------------ C12 ownership
class Owner(Plan):
    props = ("C12",)
    def fin(self, x, what):
        st = x.st; e = x.e
        d = e.mdiff(st, e.total(st), e.total0(st))
        x.need("C12", "every element is present exactly once " + what, TRUE if not d else FALSE)
        x.need("C12", "no element is dropped " + what, FALSE if any(d[0] == "o" and d[1] == "tok" for d in st.drops) else TRUE)
    def end(self, x): self.fin(x, "on return")
    def unwound(self, x, why): self.fin(x, "when user code panics")
# ------------------------------------------------------------------ C23 merges
class Merge(Plan):
    props = ("C23",)
    def setup(self, x):
        self.d, self.b = x.ins[0][1], x.ins[2][1]; self.n, self.m = x.ins[0][3], x.ins[2][3]; self.le = x.ins[1]
        x.st.gh["touched"] = False
    def access(self, e, st, rid, off, n, kind, sp):
        if kind in ("read", "write", "copy-from", "copy-to", "swap"):
            if rid == self.b: self.need("C23", "buffer positions at or beyond the length of the left part are not touched", st, ge(st.norm(self.le - off - n)), sp)
            if rid in (self.b, self.d) and not st.gh["touched"]: st.gh["touched"] = True
        return [st]
    def user(self, e, st, c, args, t, sp):
        for a in args:
            r = elt_ref(e, st, a)
            if r is not None and r[0] == self.b: self.need("C23", "buffer positions at or beyond the length of the left part are not compared", st, ge(st.norm(self.le - r[1] - 1)), sp)
        return None
    def end(self, x):
        st = x.st
        bad = f_or(lt(self.n, self.le), lt(self.m, self.le))
        if not isinstance(x.out, Var): raise Odd("merge result")
        if x.out.n == "Err":
            x.need("C23", "an error is returned only when the left part is longer than data or buffer", bad)
            x.need("C23", "nothing was touched when an error is returned", FALSE if st.gh["touched"] else TRUE)
        else: x.need("C23", "Ok is returned only when the left part fits", f_not(bad))
# ------------------------------------------------------------------ C15 hashing
class HashEv(Plan):
    props = ("C15",)
    def setup(self, x): x.st.gh["#hash"] = ()
    def user(self, e, st, c, args, t, sp):
        tr = (c.get("trait") or "").rsplit("::", 1)[-1]
        if tr == "Hasher" and len(args) == 2:
            v = args[1]
            st.gh["#hash"] = st.gh["#hash"] + ((c["method"], v[1] if v[0] == "i" else v),)
            return [("ret", st, ("s", ()))]
        return None
# ------------------------------------------------------------------ scopes
class Scope(Plan):
    props = ("C28",)
    def setup(self, x): x.st.gh["called"] = 0
    def user(self, e, st, c, args, t, sp):
        a = closure_args(c, args)
        if a is None or len(a) != 1: return None
        v = a[0]
        cont = None
        if v[0] == "s":
            fs = [y for y in v[1] if y[0] in ("arr", "f", "vec")]
            cont = fs[0] if fs else None
        self.need("C28", "the container is over exactly the storage that was given", st, TRUE if cont == self.arg and st.gh["called"] == 0 else FALSE)
        st.gh["called"] = 1
        self.ret = ("o", "x", sym("closure_result"))
        return [("ret", st, self.ret)]
    def end(self, x):
        x.need("C28", "the closure is called exactly once and its result returned", TRUE if x.st.gh["called"] == 1 and x.outv == self.ret else FALSE)
class ScopeSetup(Scope):
    def setup(self, x): Scope.setup(self, x); self.arg = x.vs[0]; self.ret = None
class SplitCont(Plan):
    props = ("C05", "C17", "C22", "C28")
    def setup(self, x):
        x.st.gh["called"] = 0; self.x = x
        self.rid = x.rid(); self.L = x.length(); self.i = x.ins[1].lo; self.ne = x.ins[1].ne
    def user(self, e, st, c, args, t, sp):
        a = closure_args(c, args)
        if a is None or len(a) != 4: return None
        def fat(v):
            for y in v[1] if v[0] == "s" else ():
                if y[0] == "f": return y
            return None
        cx = self.x.c
        prt = next((i for i in range(len(cx.T)) if cx.kind(i) == "PRange"), None)
        def rng(v):
            r = cx.interval(st, prt, v) if prt is not None else None
            return None if r is None or r[0] in (None, "mixed") or r[2] is None else r
        c1, r1, c2, r2 = fat(a[0]), rng(a[1]), fat(a[2]), rng(a[3])
        if None in (c1, r1, c2, r2): return None
        n = st.norm
        for nm, cc, r, lo, hi in (("first", c1, r1, ZERO, self.i), ("second", c2, r2, self.i, self.L)):
            for p in ("C22", "C28"): self.need(p, "split_container_at_pointer: the %s container is exactly its part" % nm, st, f_and(TRUE if cc[1] == self.rid else FALSE, eq(n(cc[2] - lo)), eq(n(cc[2] + cc[3] - hi))))
            self.need("C17", "the %s pointer range lies in the %s container" % (nm, nm), st, f_and(TRUE if r[0] == cc[1] else FALSE, ge(n(r[1] - cc[2])), ge(n(cc[2] + cc[3] - r[2])), ge(n(r[2] - r[1]))))
            self.need("C22", "split_container_at_pointer: the %s pointer range is exactly its part" % nm, st, f_and(eq(n(r[1] - lo)), eq(n(r[2] - hi))))
        if self.ne:
            self.need("C17", "the second range is nonempty for a NonEmpty pointer", st, ge(n(r2[2] - r2[1] - 1)))
        self.need("C05", "the two containers do not overlap", st, f_or(ge(n(c2[2] - c1[2] - c1[3])), ge(n(c1[2] - c2[2] - c2[3])), eq(n(c1[3])), eq(n(c2[3]))) if c1[1] == c2[1] else TRUE)
        return None

SCANS = ("scan_from", "scan_from_rev", "scan_range", "scan_tail_", "scan_pointer_range", "scan_pointer_range_rev")
SEARCHES = ("binary_search", "binary_search_by", "binary_search_by_prange", "binary_search_by_prange_", "binary_search_by_pslice", "binary_search_by_pslice_",
            "lower_bound", "lower_bound_prange", "lower_bound_prange_", "lower_bound_pslice", "lower_bound_pslice_", "lower_bound_raw_ptr")
MERGES = ("merge_internal_indices", "merge_internal_ranges")
def owner_fn(an):
    """functions that move elements around in storage the caller lent them"""
    fn = an.fn; n = fn["name"]
    if an.kind == "Container" and an.trait is None and (n.startswith(("swap", "rotate1"))): return True
    if an.kind is None and fn.get("self") is None and n not in ("copy", "copy_prange", "zip", "scope"):
        T = an.facts["types"]
        return any(T[t]["k"] == "ref" and T[t]["mut"] and T[T[t]["to"]]["k"] == "slice" and T[T[T[t]["to"]]["to"]]["k"] == "param" for t in fn["ins"])
    return False
def for_fn(an):
    n = an.fn["name"]; out = []
    free = an.kind is None and an.fn.get("self") is None
    def add(p):
        if any(an.want(q) for q in p.props): out.append(p(an))
    if an.unwind:
        if owner_fn(an): add(Owner)
        return out
    if an.kind == "Container" and n in SCANS: add(Scan)
    if free and n in SEARCHES: add(Search)
    if free and n in SEARCHES and an.props is not None and an.want("C30"): add(Halving)
    if an.kind == "Container" and n == "zip_mut_raw" or free and n == "zip": add(Zip)
    if free and n in ("copy", "copy_prange"): add(Copy)
    if free and n.startswith("zip_dot"): add(Dot)
    if free and n in MERGES: add(Merge)
    if free and n in MERGES and an.props is not None and an.want("C23"):
        import order
        add(order.Origin)
    if an.props is not None and an.want("C25") and free and n.startswith(("insertion_sort", "quicksort", "merge_internal")):
        import order
        add(order.Order)
    if an.props is not None and an.want("C29") and free and n == "heapify":
        import order
        add(order.Heap)
    if n == "hash": add(HashEv)
    if free and n == "scope": add(ScopeSetup)
    if n == "split_container_at_pointer": add(SplitCont)
    return out

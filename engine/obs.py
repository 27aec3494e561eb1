"""Observations of one analysed function: decoding of inputs and results, proof obligations, ghost monitors."""
import state as S
from poly import P, ZERO, ONE, const, var, sym
from state import St, I, B, TRUE, FALSE, ge, eq, f_and, f_or, f_not, iff, implies
from interp import Unsupported

class Part:
    """decoded particle: positions of elements in region rid (None: positions in the branded container)"""
    def __init__(self, kind, rid, lo, hi, ne, t): self.kind = kind; self.rid = rid; self.lo = lo; self.hi = hi; self.ne = ne; self.t = t
    def __repr__(self): return "%s[%r,%r)" % (self.kind, self.lo, self.hi)
class Var:
    """decoded enum value"""
    def __init__(self, n, fs): self.n = n; self.fs = fs
class Odd(Exception): pass

def dec(c, st, v, t):
    T = c.T; tt = T[t]; k = tt["k"]
    pk = c.kind(t)
    if pk in ("Index", "Range", "PIndex", "PRange", "PSlice"):
        iv = c.interval(st, t, v)
        if iv is None: raise Odd("particle %s with value %r" % (tt["name"], v[:1]))
        return Part(pk, iv[0], st.norm(iv[1]), None if iv[2] is None else st.norm(iv[2]), c.proof(t) == "NonEmpty", t)
    if pk == "Container":
        a = v[1][c.storage(t)]
        return ("cont", a)
    if v[0] == "r" and k in ("ref", "ptr"):
        if v[1] in st.mem: return dec(c, st, c.e.get(st.mem[v[1]], v[2]), tt["to"])
    if v[0] == "i": return st.norm(v[1])
    if v[0] == "b": return v[1]
    if v[0] == "f": return ("sl", v[1], st.norm(v[2]), st.norm(v[3]))
    if v[0] == "p": return ("ptr", v[1], st.norm(v[2]))
    if v[0] == "vec": return ("sl", v[1], ZERO, st.regs[v[1]].len)
    if v[0] == "arr": return ("sl", v[1], ZERO, st.regs[v[1]].len)
    if v[0] == "e" and k == "adt":
        vr = tt["variants"][v[1]]
        return Var(vr["n"], [dec(c, st, x, f["t"]) for f, x in zip(vr["f"], v[2])])
    if k == "tuple" and v[0] == "s": return [dec(c, st, x, f) for x, f in zip(v[1], tt["f"])]
    if k == "adt" and v[0] == "s": return {f["n"]: dec(c, st, x, f["t"]) for f, x in zip(tt["variants"][0]["f"], v[1])}
    return v

class X:
    """what a specification sees of one outcome of one function"""
    def __init__(self, an, c, fn, st, ins, vs, out, outv):
        self.an = an; self.c = c; self.fn = fn; self.st = st; self.ins = ins; self.vs = vs; self.out = out; self.outv = outv
        self.e = c.e
    def need(self, prop, label, f): self.an.fun.add(prop); self.an.check(prop, label, self.st, f)
    def fail(self, prop, label): self.an.fun.add(prop); self.an.check(prop, label, self.st, FALSE)
    def post(self, i):
        """value of argument i (given by reference) after the call"""
        return dec(self.c, self.st, self.vs[i], self.fn["ins"][i])
    def n(self, p): return self.st.norm(p)
    def length(self, i=0):
        """length of the container given as argument i"""
        a = self.ins[i]
        if isinstance(a, tuple) and a[0] == "cont": a = a[1]
        if a[0] in ("arr", "vec"): return self.st.gh["#len0"][a[1]]
        if a[0] in ("f", "sl"): return a[3]
        raise Odd("container argument")
    def rid(self, i=0):
        a = self.ins[i]
        if isinstance(a, tuple) and a[0] == "cont": a = a[1]
        return a[1]
    # comparisons of particles
    def same(self, p, lo, hi=None):
        """particle p denotes exactly position lo / interval [lo, hi)"""
        if not isinstance(p, Part): return FALSE
        if hi is None: return eq(self.n(p.lo - lo)) if p.hi is None else FALSE
        if p.hi is None: return FALSE
        return f_and(eq(self.n(p.lo - lo)), eq(self.n(p.hi - hi)))
    def some(self, v, names=("Some", "Ok")): return isinstance(v, Var) and v.n in names

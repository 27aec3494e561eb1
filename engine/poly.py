"""Integer polynomials over analysis symbols (the values of the relational domain)."""
class P:
    __slots__ = ("d", "_h")
    def __init__(self, d):
        self.d = d
        self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, P) and self.d == o.d
    def __ne__(self, o): return not self == o
    def __add__(self, o):
        if not isinstance(o, P):
            if o == 0: return self
            o = const(o)
        if len(o.d) > len(self.d): self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n: d[m] = n
            else: d.pop(m, None)
        return P(d)
    __radd__ = __add__
    def __neg__(self): return P({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        if not isinstance(o, P): return self + (-o)
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) - c
            if n: d[m] = n
            else: d.pop(m, None)
        return P(d)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if not isinstance(o, P):
            if o == 0: return ZERO
            if o == 1: return self
            return P({m: c * o for m, c in self.d.items()})
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                v = d.get(k, 0) + c * e
                if v: d[k] = v
                else: d.pop(k, None)
        return P(d)
    __rmul__ = __mul__
    def isconst(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def cval(self): return self.d.get((), 0)
    def linear(self):
        for m in self.d:
            if len(m) > 1: return False
        return True
    def syms(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def subst(self, sub):
        """sub: symbol -> P, applied once (already fully reduced)"""
        hit = False
        for m in self.d:
            for x in m:
                if x in sub: hit = True; break
            if hit: break
        if not hit: return self
        out = {}
        extra = None
        for m, c in self.d.items():
            k = None
            for x in m:
                if x in sub: k = 1; break
            if k is None:
                n = out.get(m, 0) + c
                if n: out[m] = n
                else: out.pop(m, None)
                continue
            t = None
            keep = []
            for x in m:
                if x in sub: t = sub[x] if t is None else t * sub[x]
                else: keep.append(x)
            if keep: t = t * P({tuple(keep): 1})
            for mm, cc in t.d.items():
                n = out.get(mm, 0) + cc * c
                if n: out[mm] = n
                else: out.pop(mm, None)
        return P(out)
    def eval(self, env):
        r = 0
        for m, c in self.d.items():
            v = c
            for x in m: v *= env[x]
            r += v
        return r
    def divexact_sym(self, s):
        """self / s if every monomial contains s"""
        out = {}
        for m, c in self.d.items():
            if s not in m: return None
            l = list(m); l.remove(s)
            out[tuple(l)] = c
        return P(out)
    def __repr__(self): return fmt(self)
_names = {}
_next = [0]
def sym(name):
    _next[0] += 1
    _names[_next[0]] = name
    return _next[0]
def name(s): return _names.get(s, "s%d" % s)
def var(s): return P({(s,): 1})
def const(c): return P({(): c}) if c else ZERO
def fmt(p):
    if not p.d: return "0"
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (len(t[0]) == 0, t[0])):
        t = "*".join("%s" % name(x) for x in m)
        if not m: t = str(abs(c))
        elif abs(c) != 1: t = "%d*%s" % (abs(c), t)
        out.append(("-" if c < 0 else "+") + t)
    s = " ".join(out)
    return s[1:] if s[0] == "+" else s
ZERO = P({})
ONE = const(1)
def topoly(x): return x if isinstance(x, P) else const(x)

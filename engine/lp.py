"""Exact feasibility of conjunctions of integer linear (and mildly polynomial) constraints.

This is the decision procedure of the relational abstract domain (entailment and emptiness of convex
polyhedra over the integers): a from-scratch rational simplex with integer rows, bound tightening, a
short branch-and-bound, and product lemmas for nonlinear monomials.  No external solver is used.
"""
from math import gcd
from poly import P, ZERO, const, name
class Unsat(Exception): pass

def tighten(p):
    """normal form of p >= 0 over the integers: coprime coefficients, rounded constant"""
    g = 0
    for m, c in p.d.items():
        if m: 
            g = gcd(g, c)
            if g == 1: return p
    if g == 0: return p
    d = {m: c // g for m, c in p.d.items()}   # floor for the constant, exact for the rest
    if d.get((), 1) == 0: d.pop((), None)
    return P(d)

class Simplex:
    """incremental exact simplex: rows (>= 0) are added one by one, the basis is kept"""
    def __init__(self, nv):
        self.nv = nv; self.next = nv
        self.T = {}           # basic var -> [coeffs over nonbasic, const, den]
    def add(self, co, k):
        T = self.T
        # common denominator of the basic variables that occur
        dd = 1
        for v in co:
            r = T.get(v)
            if r is not None and r[2] != 1: dd = dd // gcd(dd, r[2]) * r[2]
        out = {}; kk = k * dd
        for v, c in co.items():
            r = T.get(v)
            if r is None:
                z = out.get(v, 0) + c * dd
                if z: out[v] = z
                else: out.pop(v, None)
                continue
            f = c * (dd // r[2])
            for x, y in r[0].items():
                z = out.get(x, 0) + f * y
                if z: out[x] = z
                else: out.pop(x, None)
            kk += f * r[1]
        s = self.next; self.next += 1
        T[s] = norm_row(out, kk, dd)
        return s
    def solve(self):
        """False if infeasible"""
        T = self.T; nv = self.nv
        it = 0
        while True:
            it += 1
            if it > 3000: raise OverflowError("simplex")
            b = None
            for x, r in T.items():
                if x >= nv and r[1] < 0 and (b is None or x < b): b = x
            if b is None: return True
            row, k, den = T[b]
            e = None
            for v, c in row.items():
                if v < nv:
                    if e is None or e >= nv or v < e: e = v
                elif c > 0 and (e is None or (e >= nv and v < e)): e = v
            if e is None: return False
            a = row[e]
            sgn = 1 if a > 0 else -1
            new = {v: -c * sgn for v, c in row.items() if v != e}
            new[b] = den * sgn
            del T[b]
            R = norm_row(new, -k * sgn, abs(a))
            new, nk, nden = R
            for x, ri in list(T.items()):
                c = ri[0].get(e)
                if not c: continue
                if nden == 1:
                    out = dict(ri[0]); del out[e]
                    kk = ri[1]; dd = ri[2]
                else:
                    out = {v: y * nden for v, y in ri[0].items() if v != e}
                    kk = ri[1] * nden; dd = ri[2] * nden
                for v, y in new.items():
                    z = out.get(v, 0) + c * y
                    if z: out[v] = z
                    else: out.pop(v, None)
                T[x] = norm_row(out, kk + c * nk, dd)
            T[e] = R
    def value(self, v):
        r = self.T.get(v)
        return (r[1], r[2]) if r is not None else (0, 1)
def norm_row(out, kk, dd):
    if dd != 1:
        g = gcd(kk, dd)
        if g != 1:
            for x in out.values():
                g = gcd(g, x)
                if g == 1: break
            if g > 1:
                out = {v: x // g for v, x in out.items()}; kk //= g; dd //= g
    return [out, kk, dd]

def simplex(rows, nv):
    """rows: list of (coeffs dict var->int, const). Is {row >= 0} feasible over Q?  Returns None or {var: (num, den)}.
    Rows are brought in lazily: only those the current point violates."""
    S = Simplex(nv)
    pending = list(range(len(rows)))
    vals = {}
    while True:
        bad = []
        for i in pending:
            co, k = rows[i]
            # value of the row at the current point
            t = k; d = 1
            for v, c in co.items():
                x = vals.get(v)
                if x is None: continue
                n, m = x
                if m == d: t += c * n
                else: t = t * m + c * n * d; d *= m
            if t < 0: bad.append((len(co), i))
        if not bad: return vals
        bad.sort()
        pick = [bad[0][1]] + [i for _, i in bad[1:4]] if len(bad) > 1 else [bad[0][1]]
        # always include the last row (the negated goal) as soon as it is violated
        last = len(rows) - 1
        if any(i == last for _, i in bad) and last not in pick: pick.append(last)
        ps = set(pick)
        pending = [i for i in pending if i not in ps]
        for i in pick: S.add(*rows[i])
        if not S.solve(): return None
        vals = {}
        for v, r in S.T.items():
            if v < nv and r[1]: vals[v] = (r[1], r[2])

_cache = {}
def rational(cons):
    """cons: iterable of P (>= 0), monomials are LP variables.  None if infeasible else dict monomial -> (num, den)"""
    ix = {}
    rows = []
    for p in cons:
        co = {}
        for m, c in p.d.items():
            if m:
                j = ix.get(m)
                if j is None: j = ix[m] = len(ix)
                co[j] = c
        k = p.d.get((), 0)
        if not co:
            if k < 0: return None
            continue
        rows.append((co, k))
    if not rows: return {}
    s = simplex(rows, len(ix))
    if s is None: return None
    return {m: s.get(j, (0, 1)) for m, j in ix.items()}

def component(cons, seed):
    """constraints connected to the symbols of seed"""
    syms = set(seed)
    rest = [(p, p.syms()) for p in cons]
    out = []
    ch = True
    while ch and rest:
        ch = False
        nr = []
        for p, s in rest:
            if not s or (s & syms):
                out.append(p); 
                if not s <= syms: syms |= s; ch = True
            else: nr.append((p, s))
        rest = nr
    return out

def nonlinear(cons):
    ms = set()
    for p in cons:
        for m in p.d:
            if len(m) > 1: ms.add(m)
    return ms

def lemmas(cons, ms, cap=400):
    """valid product constraints p*q >= 0 whose monomials stay (mostly) inside what is already mentioned"""
    lin = [p for p in cons if p.linear() and not p.isconst()]
    known = set(ms)
    for p in cons: known.update(p.d)
    known.add(())
    nlsyms = set(x for m in ms for x in m)
    known |= {(x,) for x in nlsyms}
    pairs = set()
    for m in ms:
        if len(m) == 2: pairs.add(m)
    lin = [p for p in lin if p.syms() & nlsyms]
    out = []
    for i, p in enumerate(lin):
        for q in lin[i:]:
            r = p * q
            bad = 0
            for m in r.d:
                if len(m) > 1 and m not in known: bad += 1
            if bad == 0 and any(len(m) > 1 for m in r.d): out.append(r)
    # symbol (>=0 or >=1) times constraint for cubic
    return out[:cap]

def lemmas_wide(cons, ms, cap=600):
    lin = [p for p in cons if p.linear() and not p.isconst()]
    nlsyms = set(x for m in ms for x in m)
    lin = [p for p in lin if p.syms() <= nlsyms or len(p.syms() & nlsyms) >= 1 and len(p.d) <= 4]
    out = []
    for i, p in enumerate(lin):
        for q in lin[i:]:
            out.append(p * q)
            if len(out) >= cap: return out
    return out

def feasible(cons, depth=8, want=False):
    """Three-valued: 'unsat', ('sat', env) with an integer witness, or 'unknown' (rationally feasible only)."""
    try: return feasible_(cons, depth, want)
    except OverflowError: return "unknown"
def feasible_(cons, depth, want):
    cons = [tighten(p) for p in cons]
    for p in cons:
        if p.isconst() and p.cval() < 0: return "unsat"
    cons = list({p: 1 for p in cons if not p.isconst()})
    ms = nonlinear(cons)
    if ms:
        r = rational(cons)
        if r is None: return "unsat"
        ext = cons + lemmas(cons, ms)
        r = rational(ext)
        if r is None: return "unsat"
        ext2 = cons + lemmas_wide(cons, ms)
        r = rational(ext2)
        if r is None: return "unsat"
        if not want: return "unknown"
        return nl_witness(cons, ms)
    return bb(cons, depth, want)

def bb(cons, depth, want):
    r = rational(cons)
    if r is None: return "unsat"
    frac = None
    for m, (n, d) in r.items():
        if n % d: frac = (m, n // d); break
    if frac is None:
        return ("sat", {m[0]: n // d for m, (n, d) in r.items()})
    if depth == 0: return "unknown"
    m, f = frac
    x = P({m: 1})
    a = bb(cons + [const(f) - x], depth - 1, want)
    if a != "unsat" and (a != "unknown" or not want): return a
    b = bb(cons + [x - const(f + 1)], depth - 1, want)
    if b != "unsat": return b
    return a if a == "unknown" else "unsat"

def nl_witness(cons, ms, depth=3):
    if not ms:
        return bb(cons, 16, True)
    if depth < 0: return "unknown"
    from collections import Counter
    c = Counter()
    for m in ms:
        for x in set(m): c[x] += 1
    # sizes of types first: almost any value will do for them
    order = sorted(c, key=lambda x: (0 if name(x).startswith("size_of") else 1, -c[x], x))
    for s in order[:2]:
        vs = [1, 2, 0, 3, 4, 7, 1 << 62, (1 << 64) - 1]
        if not name(s).startswith("size_of"):
            r = rational(cons)
            if r:
                n, d = r.get((s,), (0, 1))
                vs = [v for v in (n // d, n // d + 1) if v not in vs] + vs
        for v in vs:
            k = const(v)
            cc = [tighten(p.subst({s: k})) for p in cons]
            if any(p.isconst() and p.cval() < 0 for p in cc): continue
            cc = [p for p in cc if not p.isconst()]
            r = rational(cc)
            if r is None: continue
            r = nl_witness(cc, nonlinear(cc), depth - 1)
            if isinstance(r, tuple):
                env = dict(r[1]); env[s] = v
                return ("sat", env)
    return "unknown"

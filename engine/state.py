"""Abstract states: memory shape + relational numeric constraints + element segments of regions."""
from poly import P, ZERO, const, var, sym, name
import lp

U64 = 1 << 64
UMAX = const(U64 - 1)
IMAX = const((1 << 63) - 1)
UNIT = ("s", ())
UNDEF = ("undef",)
TRUE = ("T",)
FALSE = ("F",)
STAT = {"lp": 0, "hit": 0, "quick": 0}
POS = set()          # symbols known to be >= 1 on every state (element sizes)
_ent = {}

def I(p): return ("i", p if isinstance(p, P) else const(p))
def B(f): return ("b", f)

def f_not(f):
    k = f[0]
    if k == "T": return FALSE
    if k == "F": return TRUE
    if k == "ge": return ("ge", -f[1] - 1)
    if k == "eq": return ("ne", f[1])
    if k == "ne": return ("eq", f[1])
    if k == "and": return ("or",) + tuple(f_not(x) for x in f[1:])
    if k == "or": return ("and",) + tuple(f_not(x) for x in f[1:])
    if k == "not": return f[1]
    return ("not", f)
def strip_pos(p):
    """divide by common positive symbols (sign-preserving)"""
    while p.d and () not in p.d:
        ms = iter(p.d)
        c = set(next(ms)) & POS
        for m in ms:
            c &= set(m)
            if not c: return p
        if not c: return p
        p = p.divexact_sym(next(iter(c)))
    return p
def strip_pos_ge(p):
    """p >= 0 with p = S*q + k, S positive: q >= ceil(-k/S): only k == 0 and k == -1 (strict) are simplified"""
    if () not in p.d: return strip_pos(p)
    if p.d[()] == -1:
        q = P({m: c for m, c in p.d.items() if m})
        r = strip_pos(q)
        if r is not q: return strip_pos_ge(r - 1)
    return p
def ge(p):
    p = strip_pos_ge(p)
    if p.isconst(): return TRUE if p.cval() >= 0 else FALSE
    return ("ge", p)
def eq(p):
    p = strip_pos(p)
    if p.isconst(): return TRUE if p.cval() == 0 else FALSE
    return ("eq", p)
def ne(p): return f_not(eq(p))
def f_and(*a):
    out = []
    for x in a:
        if x == FALSE: return FALSE
        if x == TRUE: continue
        if x[0] == "and": out += list(x[1:])
        else: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return ("and",) + tuple(out)
def f_or(*a):
    out = []
    for x in a:
        if x == TRUE: return TRUE
        if x == FALSE: continue
        if x[0] == "or": out += list(x[1:])
        else: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return ("or",) + tuple(out)
def implies(a, b): return f_or(f_not(a), b)
def iff(a, b): return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
def fshow(f):
    k = f[0]
    if k == "ge": return "%r >= 0" % f[1]
    if k == "eq": return "%r == 0" % f[1]
    if k == "ne": return "%r != 0" % f[1]
    if k in ("and", "or"): return "(" + (" %s " % k).join(fshow(x) for x in f[1:]) + ")"
    if k == "not": return "!" + fshow(f[1])
    return str(f)

class Reg:
    """per-state facts about a region (storage of elements)"""
    __slots__ = ("len", "segs")
    def __init__(self, ln, segs): self.len = ln; self.segs = segs
class RInfo:
    """static facts about a region"""
    def __init__(self, rid, nm, perm, size, addr, ver0, brand=None, elt=None):
        self.rid = rid; self.name = nm; self.perm = perm; self.size = size; self.addr = addr; self.ver0 = ver0; self.brand = brand; self.elt = elt

class St:
    __slots__ = ("mem", "cons", "sub", "idx", "regs", "gh", "taint", "trace", "bools", "acct", "drops", "dead", "approx", "memo", "guards")
    def __init__(self):
        self.mem = {}; self.cons = []; self.sub = {}; self.idx = {}; self.regs = {}; self.gh = {}; self.taint = frozenset()
        self.trace = (); self.bools = {}; self.acct = {}; self.drops = (); self.dead = False; self.approx = frozenset(); self.memo = {}; self.guards = None
    def fork(self):
        n = St.__new__(St)
        n.mem = dict(self.mem); n.cons = list(self.cons); n.sub = dict(self.sub); n.idx = dict(self.idx); n.regs = dict(self.regs)
        n.gh = dict(self.gh); n.taint = self.taint; n.trace = self.trace; n.bools = dict(self.bools); n.acct = dict(self.acct)
        n.drops = self.drops; n.dead = self.dead; n.approx = self.approx; n.memo = dict(self.memo); n.guards = self.guards
        return n
    def norm(self, p): return p.subst(self.sub) if self.sub else p
    # --- constraints
    def add_ge(self, p):
        p = strip_pos_ge(self.norm(p))
        if p.isconst():
            if p.cval() < 0: self.dead = True
            return
        p = lp.tighten(p)
        c = p.d.get((), 0)
        k = P({m: v for m, v in p.d.items() if m})
        o = self.idx.get(k)
        if o is not None:
            if o <= c: return
            self.cons = [q for q in self.cons if not (q - k).isconst()]
        self.idx[k] = c
        self.cons.append(p)
        # p >= 0 and -p >= 0
        nk = -k
        o2 = self.idx.get(nk)
        if o2 is not None:
            if o2 + c < 0: self.dead = True; return
            if o2 + c == 0 : self.add_eq(p)
    def add_eq(self, p):
        p = strip_pos(self.norm(p))
        if p.isconst():
            if p.cval() != 0: self.dead = True
            return
        best = None
        cnt = {}
        for m in p.d:
            for x in set(m): cnt[x] = cnt.get(x, 0) + 1
        for m, c in p.d.items():
            if len(m) == 1 and c in (1, -1) and cnt[m[0]] == 1:
                if best is None or m[0] > best[0]: best = (m[0], c)
        if best is None:
            g = 0
            from math import gcd
            for m, c in p.d.items():
                if m: g = gcd(g, c)
            if g and p.cval() % g: self.dead = True; return
            for q in (p, -p):
                q = lp.tighten(q)
                k = P({m: v for m, v in q.d.items() if m})
                self.idx[k] = min(q.cval(), self.idx.get(k, q.cval())); self.cons.append(q)
            return
        s, c = best
        rhs = (p - P({(s,): c})) * (-c)     # c*s + rest = 0 -> s = -rest/c
        one = {s: rhs}
        for k in list(self.sub):
            v = self.sub[k]
            self.sub[k] = v.subst(one)
        self.sub[s] = rhs
        old = self.cons
        self.cons = []; self.idx = {}
        for q in old:
            if self.dead: return
            self.add_ge(q.subst(one))
    def entails_ge(self, p):
        p = strip_pos_ge(self.norm(p))
        if p.isconst(): return p.cval() >= 0
        k = P({m: v for m, v in p.d.items() if m})
        c = self.idx.get(k)
        if c is not None and p.d.get((), 0) >= c: STAT["quick"] += 1; return True
        neg = -p - 1
        comp = lp.component(self.cons, p.syms())
        key = (frozenset(comp), p)
        r = _ent.get(key)
        if r is None:
            STAT["lp"] += 1
            r = lp.feasible(comp + [neg])
            r = r == "unsat"
            if len(_ent) > 300000: _ent.clear()
            _ent[key] = r
        else: STAT["hit"] += 1
        return r
    def entails(self, f):
        k = f[0]
        if k == "T": return True
        if k == "F": return self.infeasible()
        if k == "ge": return self.entails_ge(f[1])
        if k == "eq":
            p = strip_pos(self.norm(f[1]))
            if p.isconst(): return p.cval() == 0 or self.infeasible()
            return self.entails_ge(p) and self.entails_ge(-p)
        if k == "and": return all(self.entails(x) for x in f[1:])
        if k == "op": return self.bools.get(f[1]) is True
        if k == "not" and f[1][0] == "op": return self.bools.get(f[1][1]) is False
        return not self.sat_states(f_not(f))
    def infeasible(self):
        if self.dead: return True
        key = frozenset(self.cons)
        r = _ent.get(key)
        if r is None:
            STAT["lp"] += 1
            r = lp.feasible(self.cons) == "unsat"
            _ent[key] = r
        return r
    def assume(self, f):
        """conjunctive assumption; disjunctions must go through sat_states"""
        k = f[0]
        if k == "T": return self
        if k == "F": self.dead = True
        elif k == "ge": self.add_ge(f[1])
        elif k == "eq": self.add_eq(f[1])
        elif k == "and":
            for x in f[1:]: self.assume(x)
        elif k == "op":
            v = self.bools.get(f[1])
            if v is False: self.dead = True
            self.bools[f[1]] = True
        elif k == "not" and f[1][0] == "op":
            v = self.bools.get(f[1][1])
            if v is True: self.dead = True
            self.bools[f[1][1]] = False
        else: raise AssertionError(f)
        return self
    def sat_states(self, f):
        """feasible states refining self with f"""
        k = f[0]
        if self.dead or k == "F": return []
        if k == "T": return [self]
        if k == "ge":
            if self.entails_ge(-f[1] - 1): return []
            return [self.fork().assume(f)]
        if k == "eq":
            p = strip_pos(self.norm(f[1]))
            if p.isconst(): return [self] if p.cval() == 0 else []
            if self.entails_ge(p - 1) or self.entails_ge(-p - 1): return []
            n = self.fork().assume(("eq", p))
            return [] if n.dead or n.infeasible() else [n]
        if k == "ne":
            p = strip_pos(self.norm(f[1]))
            if p.isconst(): return [self] if p.cval() != 0 else []
            return self.sat_states(("ge", p - 1)) + self.sat_states(("ge", -p - 1))
        if k == "and":
            cur = [self]
            # plain constraints first
            for x in sorted(f[1:], key=lambda t: {"ge": 0, "eq": 0, "T": 0, "F": 0, "op": 0, "not": 0}.get(t[0], 1)):
                cur = [b for a in cur for b in a.sat_states(x)]
                if not cur: return []
            return cur
        if k == "or":
            out = []
            base = self
            for x in f[1:]:
                out += base.sat_states(x)
                nx = base.sat_states(f_not(x)) if x[0] in ("ge", "op") else [base]
                if not nx: break
                if len(nx) == 1: base = nx[0]
            return out
        if k == "op":
            v = self.bools.get(f[1])
            if v is None: return [self.fork().assume(f)]
            return [self] if v else []
        if k == "not":
            if f[1][0] == "op":
                v = self.bools.get(f[1][1])
                if v is None: return [self.fork().assume(f)]
                return [] if v else [self]
            return self.sat_states(f_not(f[1]))
        raise AssertionError(f)
    def branch(self, f):
        """[(True, st)...] + [(False, st)...]"""
        if f[0] == "T": return [(True, self)]
        if f[0] == "F": return [(False, self)]
        return [(True, s) for s in self.sat_states(f)] + [(False, s) for s in self.sat_states(f_not(f))]
    def witness(self, f=TRUE):
        """integer model of the state refined by f, or None"""
        for s in self.sat_states(f):
            r = lp.feasible(s.cons, want=True)
            if isinstance(r, tuple):
                env = dict(r[1])
                for k, v in s.sub.items():
                    for x in v.syms(): env.setdefault(x, 0 if x not in POS else 1)
                for p in s.cons:
                    for x in p.syms(): env.setdefault(x, 0)
                try:
                    if any(p.eval(env) < 0 for p in s.cons): continue
                except KeyError: continue
                for k, v in s.sub.items(): env[k] = v.eval(env)
                return env, s
        return None

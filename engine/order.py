"""Order facts about array contents (C25).

A content version is an immutable name for the elements a region held at some moment, so a fact about positions of a
version stays true for ever; moving elements only changes which version positions a region's segments denote.
  ("P", rel, (v, lo, hi), (w, lo2, hi2))  every element of the first part is related to every element of the second
  ("E", (v, lo, hi), w, shift)            position x of the part is position x + shift of version w
  ("S", "dat"/"buf", (v, lo, hi))         every element of the part was in the data / in the buffer at the beginning
  ("T", v, w)                             equal positions of the two versions hold elements with equal original positions
  ("H", v, n, lo, hole)                   among the first n positions, no element from lo on (but not at hole) is greater than one of its heap
                                          children (hole may be None)
  ("G", v, n, lo, hole)                   if the heap parent of hole is from lo on, it is not greater than the children of hole
  ("S", rel, (v, lo, hi))                 any two elements of the part are related in order of position
rel: "le"/"lt" (the order of the algorithm), "o" (the element was earlier in the input), "lex" ("lt", or "le" and "o").
Facts come from the outcomes of comparisons, from the stated precondition and from the invariants of loops; the latter are
found like the numeric ones: a finite set of candidates over positions that occur in the loop, reduced to the largest
inductive subset."""
import lp
from poly import P, ZERO, ONE, const, var, sym
import state as S
from state import B, I, TRUE, FALSE, ge, eq
from plans import Plan, closure_args, bool_answers, ord_answers
from obs import Var, Odd

IMP = {"lt": ("lt", "le", "lex"), "lex": ("lex", "le"), "le": ("le",), "o": ("o",), "dat": ("dat",), "buf": ("buf",)}
COL = ("dat", "buf")
def comp(a, b):
    if "o" in (a, b): return "o" if a == b else None
    if "lt" in (a, b): return "lt"
    return "lex" if a == b == "lex" else "le"
def facts(st): return st.gh.get("#ord", ())
def add(st, f):
    if f not in st.gh["#ord"]: st.gh["#ord"] = st.gh["#ord"] + (f,)

_mod = {}; _seen = {}
class K:
    """what the order facts of a state entail; positions are numbered, parts are (version, from, to)"""
    def __init__(self, st):
        self.st = st; self.pt = []; self.no = {}; self.lq = {}; self.sht = []; self.shp = []; self.neg = []; self.shno = {}; self.shnum(ONE); self.dn = {}; self.al = {}; self.im = {}; self.onc = {}; self.cl = {}; self.ppc = {}
        self.sub_ = None
        self.lin = [c for c in st.cons if c.linear()]; self.comps = {}
        g = self.seg
        self.pairs = []; self.sorts = []; self.eqs = []
        for f in facts(st):
            if f[0] == "P":
                x = (f[1], g(f[2]), g(f[3]))
                if x not in self.pairs: self.pairs.append(x)
            elif f[0] == "S":
                x = (f[1], g(f[2]))
                if x not in self.sorts: self.sorts.append(x)
            elif f[0] == "E":
                x = (g(f[1]), f[2], self.shnum(st.norm(f[3])))
                if x not in self.eqs: self.eqs.append(x)
        self.byver = {}
        for rel, a, b in self.pairs: self.byver.setdefault(b[0], []).append((rel, a, b))
        self.svar = {}
        for rel, a in self.sorts: self.svar.setdefault(a[0], []).append((rel, a))
        self.map = {}       # version -> [(part, other version, shift)]
        for d, u, sh in self.eqs:
            self.map.setdefault(d[0], []).append((d, u, sh))
            self.map.setdefault(u, []).append(((u, self.shift(d[1], sh), self.shift(d[2], sh)), d[0], self.neg[sh]))
        self.ends = None
    def ends_of(self, v):
        if self.ends is None:
            E = self.ends = {}
            for rel, a, b in self.pairs:
                for s in (a, b): E.setdefault(s[0], {}).update({s[1]: 1, s[2]: 1})
            for rel, a in self.sorts: E.setdefault(a[0], {}).update({a[1]: 1, a[2]: 1})
            for w, l in self.map.items():
                for d, u, sh in l: E.setdefault(w, {}).update({d[1]: 1, d[2]: 1})
            for _ in range(2):
                for w, l in self.map.items():
                    for d, u, sh in l:
                        back = self.neg[sh]
                        for t in list(E.get(u, ())): E[w].setdefault(self.shift(t, back), 1)
        return list(self.ends.get(v, ()))
    def shnum(self, p):
        i = self.shno.get(p)
        if i is None:
            i = self.shno[p] = len(self.sht); self.sht.append({}); self.shp.append(p); self.neg.append(0)
            self.neg[i] = self.shnum(-p); self.neg[self.neg[i]] = i
        return i
    def num(self, p):
        i = self.no.get(p)
        if i is None: i = self.no[p] = len(self.pt); self.pt.append(p)
        return i
    def seg(self, s): n = self.st.norm; return (s[0], self.num(n(s[1])), self.num(n(s[2])))
    def shift(self, i, sh):
        t = self.sht[sh]; r = t.get(i)
        if r is None: r = t[i] = self.num(self.st.norm(self.pt[i] + self.shp[sh]))
        return r
    def succ(self, i): return self.shift(i, 0)
    def pred(self, i): return self.shift(i, self.neg[0])
    def ge(self, p):
        """p >= 0, by the linear constraints alone; points that were found to satisfy them answer most questions"""
        if p.isconst(): return p.cval() >= 0
        p = S.strip_pos_ge(p)
        if p.isconst(): return p.cval() >= 0
        if not p.linear(): return self.st.entails_ge(p)
        c = self.st.idx.get(P({m: v for m, v in p.d.items() if m}))
        if c is not None and p.cval() >= c: return True
        sy = frozenset(p.syms()); cp = self.comps.get(sy)
        if cp is None:
            co = lp.component(self.lin, sy); key = frozenset(co)
            if len(_mod) > 20000: _mod.clear(); _seen.clear()
            cp = self.comps[sy] = (co, key, _mod.setdefault(key, []))
        co, key, ms = cp
        r = _seen.get((key, p))
        if r is not None: return r
        r = None
        for m in ms:
            t = 0
            for x, c in p.d.items():
                if x:
                    v = m.get(x[0])
                    if v is None: break
                    t += c * v
                else: t += c
            else:
                if t < 0: r = False; break
        if r is None:
            f = lp.feasible(co + [-p - 1])
            if isinstance(f, tuple): ms.insert(0, f[1]); del ms[40:]
            r = f == "unsat"
        _seen[(key, p)] = r
        return r
    def le(self, i, j):
        """position i <= position j"""
        if i == j: return True
        k = (i, j); r = self.lq.get(k)
        if r is None:
            p = self.pt[j] - self.pt[i]
            r = self.lq[k] = self.ge(p)
        return r
    def lt(self, i, j):
        if i == j: return False
        k = (i, j, 1); r = self.lq.get(k)
        if r is None:
            p = self.pt[j] - self.pt[i] - 1
            r = self.lq[k] = self.ge(p)
            if r: self.lq[(i, j)] = True; self.lq[(j, i)] = False
        return r
    def empty(self, s): return self.le(s[2], s[1])
    def full(self, s): return self.lt(s[1], s[2])
    def one(self, s): return self.le(s[2], self.succ(s[1])) and self.full(s)
    def sub(self, a, b): return a[0] == b[0] and self.le(b[1], a[1]) and self.le(a[2], b[2])
    def clip(self, a, b):
        k = (a[1], a[2], b[1], b[2]); r = self.cl.get(k)
        if r is None:
            l = a[1] if self.le(b[1], a[1]) else b[1] if self.le(a[1], b[1]) else None
            h = None if l is None else a[2] if self.le(a[2], b[2]) else b[2] if self.le(b[2], a[2]) else None
            r = self.cl[k] = () if h is None or self.le(h, l) else (l, h)
        return (a[0],) + r if r else None
    def move(self, s, u, sh): return (u, self.shift(s[1], sh), self.shift(s[2], sh))
    def names(self, q):
        """other names of the same elements (a part given by its positions)"""
        return [(x[0], self.pt[x[1]], self.pt[x[2]]) for x in self.aliases(self.seg(q))]
    def aliases(self, q):
        r = self.al.get(q)
        if r is None:
            r = [q]
            for x in r:
                if len(r) > 8: break
                for d, u, sh in self.map.get(x[0], ()):
                    if self.sub(x, d):
                        y = self.move(x, u, sh)
                        if y not in r: r.append(y)
            self.al[q] = r
        return r
    def images(self, q):
        """parts of other versions that hold some of the same elements"""
        r = self.im.get(q)
        if r is None:
            r = [q]
            for x in r:
                if len(r) > 8: break
                for d, u, sh in self.map.get(x[0], ()):
                    c = self.clip(x, d)
                    if c is None: continue
                    y = self.move(c, u, sh)
                    if y not in r and self.full(y): r.append(y)
            self.im[q] = r
        return r
    def down(self, q):
        """[(rel, part)]: every element of part is rel every element of q"""
        r = self.dn.get(q)
        if r is not None: return r
        res = []; have = {}
        def put(rel, seg, out):
            if rel is None or seg[2] == seg[1]: return
            for r2 in have.get(seg, ()):
                if rel in IMP[r2]: return
            have.setdefault(seg, []).append(rel)
            res.append((rel, seg)); out.append((rel, seg))
        fr = []
        for q1 in self.aliases(q):
            if self.one(q): put("le", q1, fr)
            for rel, a, b in self.byver.get(q1[0], ()):
                if self.sub(q1, b): put(rel, a, fr)
            for rel, s in self.svar.get(q1[0], ()):
                if rel not in COL and self.sub(q1, s):
                    put(rel, (q1[0], s[1], q1[1]), fr)
                    if rel != "o": put("le", (q1[0], s[1], self.succ(q1[1])), fr)
        for _ in range(4):
            nf = []
            for r1, m0 in fr:
                if m0 == q and r1 == "le": continue
                if not self.full(m0): continue
                for m in self.images(m0):
                    for rel, a, b in self.byver.get(m[0], ()):
                        c = comp(rel, r1)
                        if c and (self.sub(m, b) or self.sub(b, m) and self.full(b)): put(c, a, nf)
                    for rel, s in self.svar.get(m[0], ()):
                        c = None if rel in COL else comp(rel, r1)
                        if not c: continue
                        if self.sub(m, s) or self.lt(s[1], m[2]) and self.le(m[2], s[2]): put(c, (m[0], s[1], self.pred(m[2])), nf)
                if len(res) > 150: break
            fr = nf
            if not fr or len(res) > 150: break
        self.dn[q] = res
        return res
    def on(self, ver, segs):
        """the parts among segs (or their clipped images) that are about the given version"""
        out = []; seen = set(); todo = list(segs)
        for _ in range(3):
            nx = []
            for s in todo:
                if s in seen: continue
                seen.add(s)
                if s[0] == ver: out.append(s); continue
                for d, u, sh in self.map.get(s[0], ()):
                    c = self.clip(s, d)
                    if c is not None: nx.append(self.move(c, u, sh))
            todo = nx
            if not todo: break
        return out
    def cover(self, p, items):
        reach = [p[1]]; left = list(items)
        for cur in reach:           # everything from the start of p up to here is covered
            if self.le(p[2], cur): return True
            keep = []
            for s in left:
                if not self.le(s[1], cur): keep.append(s)
                elif s[2] not in reach: reach.append(s[2])
            left = keep
        return False
    def below(self, q, rel, ver):
        """the parts of a version whose elements are rel every element of q"""
        k = (q, rel, ver); r = self.onc.get(k)
        if r is None: r = self.onc[k] = self.on(ver, [s for r2, s in self.down(q) if r2 == rel or rel in IMP[r2]])
        return r
    def inside(self, p):
        """the positions that split a part"""
        return [t for t in self.ends_of(p[0]) if t != p[1] and t != p[2] and self.le(p[1], t) and self.le(t, p[2]) and not self.le(t, p[1]) and not self.le(p[2], t)]
    def pp(self, rel, p, q): return self.pp_(rel, self.seg(p), self.seg(q))
    def srt(self, rel, p): return self.srt_(rel, self.seg(p))
    def pp_(self, rel, p, q, depth=2):
        """every element of p is rel every element of q"""
        k = (rel, p, q, depth); r = self.ppc.get(k)
        if r is None: r = self.ppc[k] = self.pp0(rel, p, q, depth)
        return r
    def pp0(self, rel, p, q, depth):
        if self.empty(p) or self.empty(q): return True
        if not (self.full(p) and self.full(q)):
            if self.sub_ is None: self.sub_ = {}
            key = (p[1:], q[1:]); k = self.sub_.get(key)
            if k is None:
                P_ = lambda i: self.pt[i]
                st = self.st.fork(); st.add_ge(P_(p[2]) - P_(p[1]) - 1)
                if not st.dead: st.add_ge(P_(q[2]) - P_(q[1]) - 1)
                k = self.sub_[key] = True if st.dead or st.infeasible() else K(st)
            if k is True: return True
            return k.pp_(rel, k.seg((p[0], self.pt[p[1]], self.pt[p[2]])), k.seg((q[0], self.pt[q[1]], self.pt[q[2]])), depth)
        for p1 in self.aliases(p):
            if self.cover(p1, self.below(q, rel, p1[0])): return True
            if rel == "lex":
                lo = self.below(q, "le", p1[0]); oo = self.below(q, "o", p1[0])
                if self.cover(p1, lo) and self.cover(p1, oo): return True
                # piecewise: parts related either way
                inter = list(self.below(q, "lex", p1[0]))
                for a in lo:
                    for b in oo:
                        c = self.clip(a, b)
                        if c is not None: inter.append(c)
                if self.cover(p1, inter): return True
        if depth:
            for t in self.inside(q):
                if self.pp_(rel, p, (q[0], q[1], t), depth - 1) and self.pp_(rel, p, (q[0], t, q[2]), depth - 1): return True
        return False
    def srt_(self, rel, p, depth=3):
        if self.empty(p) or rel not in COL and self.le(p[2], self.succ(p[1])): return True
        if rel in COL: return any(self.cover(p1, [s for r, s in self.svar.get(p1[0], ()) if r == rel]) for p1 in self.aliases(p)) or bool(depth) and any(self.srt_(rel, (p[0], p[1], t), depth - 1) and self.srt_(rel, (p[0], t, p[2]), depth - 1) for t in self.inside(p))
        for p1 in self.aliases(p):
            if any(rel in IMP[r] and self.sub(p1, s) for r, s in self.svar.get(p1[0], ())): return True
        if rel == "lex" and self.srt_("le", p, 0) and self.srt_("o", p, 0): return True
        if depth:
            for t in self.inside(p):
                a, b = (p[0], p[1], t), (p[0], t, p[2])
                if self.pp_(rel, a, b) and self.srt_(rel, a, depth - 1) and self.srt_(rel, b, depth - 1): return True
        return False

def piece(lo, hi, src):
    """a segment of a region as a part of a version, or None"""
    if src[0] == "v": return (src[1], lo + src[2], hi + src[2])
    t = src[1]
    if t[0] == "o" and t[1] == "tok": return (t[2], t[3], t[3] + 1)
    return None
def pieces_nf(st, rid, lo, hi):
    """the parts that make up positions [lo, hi) of a region, when that does not need a case distinction"""
    out = []
    e = st.entails_ge
    for a, b, src in st.regs[rid].segs:
        if e(lo - b) or e(a - hi): continue
        l = a if e(a - lo) else lo if e(lo - a) else None
        h = b if e(hi - b) else hi if e(b - hi) else None
        if l is None or h is None: return None
        if src[0] == "v": out.append((src[1], st.norm(l + src[2]), st.norm(h + src[2])))
        else:
            p = piece(l, h, src)
            if p is None: return None
            out.append((p[0], st.norm(p[1]), st.norm(p[2])))
    return out
def pieces(e, st, rid, lo, hi):
    """[(state, parts or None)]"""
    if not (st.entails_ge(lo) and st.entails_ge(hi - lo) and st.entails_ge(st.regs[rid].len - hi)): return [(st, None)]
    r = pieces_nf(st, rid, lo, hi)
    if r is not None: return [(st, r)]
    out = []
    for x in e.take(st.fork(), rid, lo, hi):
        s, segs = x[0], x[1]
        if s.dead or s.infeasible(): continue
        ps = [piece(a, b, sg if sg[0] == "t" else ("v", sg[1], sg[2])) for a, b, sg in segs]
        if any(p is None for p in ps): out.append((s, None)); continue
        out.append((s, [(p[0], s.norm(p[1]), s.norm(p[2])) for p in ps]))
    return out
def sorted_pieces(k, rel, ps):
    if rel in COL: return all(k.srt(rel, p) for p in ps)
    return all(k.srt(rel, p) for p in ps) and all(k.pp(rel, ps[i], ps[j]) for i in range(len(ps)) for j in range(i + 1, len(ps)))
def check(e, st, c, cache=None):
    """does the candidate invariant c hold in st?"""
    def get(seg):
        key = (id(st), seg)
        if cache is not None and key in cache: return cache[key]
        r = pieces(e, st, seg[0], st.norm(seg[1]), st.norm(seg[2]))
        if cache is not None: cache[key] = r
        return r
    def know(s):
        if cache is None: return K(s)
        k = cache.get(("K", id(s)))
        if k is None: k = cache[("K", id(s))] = K(s); cache[("s", id(s))] = s
        return k
    if c[0] == "=":
        r, lo, hi, u, sh = c[1:]
        for s, ps in get((r, lo, hi)):
            if ps is None: return False
            cur = s.norm(lo + sh)
            for p in ps:
                if s.entails_ge(p[1] - p[2]): continue
                for q in know(s).names(p):
                    if q[0] == u and s.entails(eq(q[1] - cur)): break
                else: return False
                cur = s.norm(cur + p[2] - p[1])
        return True
    if c[0] in "HG": return heapcheck(st, e, c)
    if c[0] == "T": return twin(st, c[1], c[2])
    if c[0] == "S": return all(ps is not None and sorted_pieces(know(s), c[1], ps) for s, ps in get(c[2]))
    for s, ps in get(c[2]):
        if ps is None: return False
        for s2, qs in (get(c[3]) if s is st else pieces(e, s, c[3][0], s.norm(c[3][1]), s.norm(c[3][2]))):
            if qs is None: return False
            if s is not st and s2 is not s or s is st: pass
            if s is not st or s2 is not st:
                ps2 = ps if s2 is s else (pieces(e, s2, c[2][0], s2.norm(c[2][1]), s2.norm(c[2][2]))[0][1])
                if ps2 is None: return False
            else: ps2 = ps
            k = know(s2)
            if not all(k.pp(c[1], p, q) for p in ps2 for q in qs): return False
    return True
def twin(st, r, q):
    """equal positions of both regions hold elements with equal original positions"""
    a, b = st.regs[r], st.regs[q]
    def merged(segs):
        out = []
        for l, h, x in segs:
            p = piece(l, h, x)
            if p is None: return None
            if st.entails_ge(l - h): continue
            p = (p[0], st.norm(p[1]), st.norm(p[2]))
            if out and out[-1][0] == p[0] and out[-1][2] == p[1]: out[-1] = (p[0], out[-1][1], p[2])
            else: out.append(p)
        return out
    x, y = merged(a.segs), merged(b.segs)
    if x is None or y is None or len(x) != len(y) or not st.entails(eq(a.len - b.len)): return False
    fs = facts(st)
    for p, q in zip(x, y):
        if ("T", p[0], q[0]) not in fs or not (st.entails(eq(p[1] - q[1])) and st.entails(eq(p[2] - q[2]))): return False
    return True
def heapcheck(st, e, c):
    """is every heap edge that the candidate is about in order?"""
    r, lo, hole = c[1:]; n = st.regs[r].len
    k = var(sym("k")); todo = []
    for b in (1, 2):
        s = st.fork(); s.add_ge(k - lo)
        if c[0] == "H":
            if hole is None: ss = [s]
            else:
                ss = []
                for d in (1, -1): t = s.fork(); t.add_ge(d * (k - hole) - 1); ss.append(t)
            for t in ss:
                t.add_ge(n - 1 - (2 * k + b)); todo.append((t, 2 * k + b))
        else:
            s.add_eq(2 * k + b - hole)
            for b2 in (1, 2):
                t = s.fork(); t.add_ge(n - 1 - (2 * hole + b2)); todo.append((t, 2 * hole + b2))
    for s, ch in todo:
        if s.dead or s.infeasible(): continue
        for s1, p in e.content_at(s, r, s.norm(k)):
            if s1.dead or s1.infeasible(): continue
            for s2, q in e.content_at(s1, r, s1.norm(ch)):
                if s2.dead or s2.infeasible(): continue
                if not (p[0] == "o" and p[1] == "tok" and q[0] == "o" and q[1] == "tok"): return False
                if not heaple(s2, (p[2], s2.norm(p[3])), (q[2], s2.norm(q[3]))): return False
    return True
def heaple(st, p, q, depth=2):
    """is element p (version, position) not greater than q?"""
    if st.dead or st.infeasible(): return True
    k = K(st)
    if k.pp("le", (p[0], p[1], p[1] + 1), (q[0], q[1], q[1] + 1)): return True
    holes = []
    e = lambda x: st.entails_ge(st.norm(x))
    for u, x, _ in k.names((p[0], p[1], p[1] + 1)):
        for v, y, _ in k.names((q[0], q[1], q[1] + 1)):
            if u != v: continue
            for f in facts(st):
                if f[0] not in "HG" or f[1] != u: continue
                n, lo, hole = f[2:]
                if not (e(x - lo) and e(n - 1 - y)): continue
                if f[0] == "H":
                    if not (e(y - 2 * x - 1) and e(2 * x + 2 - y)): continue
                    if hole is None or e(x - hole - 1) or e(hole - x - 1): return True
                    holes.append((x, hole))
                elif e(hole - 2 * x - 1) and e(2 * x + 2 - hole) and e(y - 2 * hole - 1) and e(2 * hole + 2 - y): return True
    if depth:
        for x, h in holes:
            out = []
            for d in (x - h - 1, h - x - 1): s = st.fork(); s.add_ge(st.norm(d)); out.append(s)
            s = st.fork(); s.add_eq(st.norm(x - h)); out.append(s)
            if all(s.dead or heaple(s, (p[0], s.norm(p[1])), (q[0], s.norm(q[1])), depth - 1) for s in out): return True
    return False
def heapcands(e, h, st, s0, l0):
    """lower bounds and holes are taken from the loop-carried positions and from the facts known before the loop"""
    gs = [st.norm(var(g)) for i, g in h.gen.items() if g != "opq"]
    los = {ZERO: 1}; holes = {}
    for g in gs:
        holes.setdefault(g, 1)
        for d in (0, 1): los.setdefault(g + d, 1)
    for i, g in h.gen.items():      # where the walk starts
        if g == "opq" or i >= len(l0) or not isinstance(l0[i], P): continue
        q = st.norm(s0.norm(l0[i]))
        if len(los) < 9:
            for d in (0, 1): los.setdefault(q + d, 1)
    for f in facts(s0):
        if f[0] in "HG":
            for d in (0, -1, 1): los.setdefault(st.norm(f[3] + d), 1)
            if f[4] is not None: holes.setdefault(st.norm(f[4]), 1)
    out = []
    for r in h.regs:
        if r != e.ord.rid: continue
        for lo in los:
            out.append(("H", r, lo, None))
            for x in holes: out.append(("H", r, lo, x)); out.append(("G", r, lo, x))
    return out
def subst(c, m, st):
    if c[0] in "HG": return (c[0], c[1], st.norm(c[2].subst(m)), None if c[3] is None else st.norm(c[3].subst(m)))
    if c[0] == "T": return c
    g = lambda s: (s[0], st.norm(s[1].subst(m)), st.norm(s[2].subst(m)))
    if c[0] == "=": return ("=", c[1], st.norm(c[2].subst(m)), st.norm(c[3].subst(m)), c[4], c[5])
    if c[0] == "S": return ("S", c[1], g(c[2]))
    return ("P", c[1], g(c[2]), g(c[3]))
def canonical(e, s0):
    """name the whole content of every region by one version, with the sources of its parts as facts"""
    s = s0
    for r in sorted(s0.regs):
        segs = s0.regs[r].segs
        if len(segs) <= 1 and (not segs or segs[0][2][0] == "v" and not s0.norm(segs[0][2][2]).d): continue
        ps = [(a, b, piece(a, b, src)) for a, b, src in segs]
        if any(p is None for a, b, p in ps): continue
        if s is s0: s = s0.fork()
        w = e.newver("at_loop")
        for a, b, p in ps: add(s, ("E", (w, a, b), p[0], p[1] - a))
        s.regs[r] = S.Reg(s0.regs[r].len, ((ZERO, s0.regs[r].len, ("v", w, ZERO)),))
    return s
def assume(st, h, cands):
    for c in cands:
        if c[0] in "HG": add(st, (c[0], h.regs[c[1]], st.regs[c[1]].len, c[2], c[3]))
        elif c[0] == "T": add(st, ("T", h.regs[c[1]], h.regs[c[2]]))
        elif c[0] == "=": add(st, ("E", (h.regs[c[1]], c[2], c[3]), c[4], c[5]))
        elif c[0] == "S":
            ps = pieces_nf(st, *c[2])
            if ps is None: continue
            for i, p in enumerate(ps):
                add(st, ("S", c[1], p))
                if c[1] in COL: continue
                for q in ps[i + 1:]: add(st, ("P", c[1], p, q))
        elif c[0] == "P":
            ps, qs = pieces_nf(st, *c[2]), pieces_nf(st, *c[3])
            if ps is None or qs is None: continue
            for p in ps:
                for q in qs: add(st, ("P", c[1], p, q))
def positions(st, rid, ver):
    """offsets with which positions of a version appear in a region"""
    return [s[2][2] for s in st.regs[rid].segs if s[2][0] == "v" and s[2][1] == ver]
def candidates(e, h, st, backs, lvs, s0, l0, okp, rels, srels):
    if e.ord.heap: return heapcands(e, h, st, s0, l0)
    """st: a header state; backs: states after an iteration, expressed over the header's symbols"""
    E = {}
    vers = {}
    for r in st.regs:
        for a, b, src in st.regs[r].segs:
            if src[0] == "v": vers.setdefault(src[1], []).append((r, src[2]))
    old = set(facts(s0)); gens = [(var(g), {id(s): s.norm(l[i]) for s, l in zip(backs, lvs)}) for i, g in h.gen.items() if g != "opq"]
    def put(r, p, s):
        q = s.norm(p)
        for g, nv in gens:
            nv = [s.norm(g)] + ([nv[id(s)]] if id(s) in nv else [])
            for c in (0, 1, -1):
                if any(x + c == q for x in nv): E.setdefault(r, {}).setdefault(st.norm(g + c), 1)
        for q in (p, q):
            q = st.norm(q)
            if okp(q): E.setdefault(r, {}).setdefault(q, 1)
    for s in backs:
        for r in st.regs:
            if r in h.regs:
                for a, b, src in s.regs[r].segs:
                    put(r, a, s)
                    if src[0] == "t": put(r, b, s)
        for f in facts(s):
            if f in old or f[0] in "THG": continue
            for sg in f[2:] if f[0] != "E" else (f[1],):
                for r, off in vers.get(sg[0], ()):
                    for p in sg[1:]: put(r, p - off, s)
    for r in h.regs:
        for a, b, src in s0.regs[r].segs if r in s0.regs else ():
            put(r, a, s0)
    for r in E:
        put(r, ZERO, st); put(r, st.regs[r].len, st)
        for g, nv in gens:
            g = st.norm(g)
            if not g.isconst() and st.entails_ge(g) and st.entails_ge(st.regs[r].len - g):
                for q in (g, g + 1):
                    if len(E[r]) < 13: E[r].setdefault(q, 1)
    out = [("T",) + e.ord.twins] if e.ord.twins and all(r in h.regs for r in e.ord.twins) else []; segs = {}; h_syms = set(x for g, nv in gens for x in st.norm(g).syms())
    for r, es in E.items():
        if e.debug: print("ENDS", r, list(es))
        gs = [st.norm(g) for g, nv in gens]
        pri = lambda q: 0 if not q.d or q == st.norm(st.regs[r].len) else 1 if q in gs else 2 if all(x not in h_syms for x in q.syms()) and not q.isconst() and not q.cval() else 3 if q - 1 in gs else 4
        es = sorted(es, key=pri)[:12]
        segs[r] = [(r, a, b) for a in es for b in es if a != b and st.entails_ge(b - a) and st.entails_ge(a) and st.entails_ge(st.regs[r].len - b)]
    shifts = {}
    for s in list(backs) + [s0]:
        for r in h.regs:
            if r not in s.regs: continue
            for a, b, src in s.regs[r].segs:
                if src[0] == "v": u, sh = src[1], s.norm(src[2])
                elif src[1][0] == "o" and src[1][1] == "tok": u, sh = src[1][2], s.norm(src[1][3] - a)
                else: continue
                if u in h.regs.values() or not okp(var(u)) or not okp(sh): continue
                shifts.setdefault(r, {}).setdefault((u, sh), 1)
    for r, us in shifts.items():
        for u, sh in us:
            for g in segs.get(r, ()): out.append(("=", r, g[1], g[2], u, sh))
    alls = [g for r in segs for g in segs[r]]
    for g in alls:
        for rel in srels:
            if g[0] in h.regs and (rel in COL or not (g[2] - g[1] == ONE)): out.append(("S", rel, g))
    for a in alls:
        for b in alls:
            if a[0] == b[0] and not (st.entails_ge(b[1] - a[2]) or st.entails_ge(a[1] - b[2])): continue
            for rel in rels: out.append(("P", rel, a, b))
    return out
def prune(e, st, h, cands):
    """drop candidates implied by others"""
    if e.ord.heap:
        k = K(st); no = lambda x: None if x is None else k.num(st.norm(x)); out = []
        cs = [(c, no(c[2]), no(c[3])) for c in cands]
        def implied(c, d):
            """d => c"""
            if d[0][1] != c[0][1] or not k.le(d[1], c[1]): return False
            if c[0][0] == "H": return d[0][0] == "H" and (d[2] is None or d[2] == c[2] or c[2] is not None and k.le(d[2], c[2]) and k.le(c[2], d[2]) or k.lt(d[2], c[1]))
            return d[0][0] == "G" and (d[2] == c[2] or k.le(d[2], c[2]) and k.le(c[2], d[2]))
        for i, c in enumerate(cs):
            if not any(j != i and implied(c, d) and not (j > i and implied(d, c)) for j, d in enumerate(cs)): out.append(c[0])
        return out
    le = st.entails_ge
    sub = lambda a, b: a[0] == b[0] and le(a[1] - b[1]) and le(b[2] - a[2])
    out = []
    for c in cands:
        if c[0] in "THG": out.append(c); continue
        for d in cands:
            if d is c or d[0] != c[0]: continue
            if c[0] == "=":
                if d[1] == c[1] and d[4:] == c[4:] and sub(c[1:4], d[1:4]) and not (sub(d[1:4], c[1:4]) and d not in out): break
            elif c[0] == "S":
                if c[1] == d[1] and sub(c[2], d[2]) and not (sub(d[2], c[2]) and d not in out): break
            elif c[1] in IMP[d[1]] and sub(c[2], d[2]) and sub(c[3], d[3]) and not (d[1] == c[1] and sub(d[2], c[2]) and sub(d[3], c[3]) and d not in out): break
        else: out.append(c)
    if len(out) < 3: return out
    kept = []; s = st.fork(); cache = {}
    for c in sorted(out, key=lambda c: ("=THGSP".index(c[0]), out.index(c))):
        if c[0] in "SP" and check(e, s, c, cache): continue
        kept.append(c); s = s.fork(); assume(s, h, [c]); cache = {}
    return kept

def deref_val(e, st, v):
    """[(state, part)] of the element a reference (possibly to a local copy) denotes"""
    n = 0
    while v[0] == "r" and n < 5 and v[1] in st.mem: v = e.get(st.mem[v[1]], v[2]); n += 1
    if v[0] == "o" and v[1] == "tok": return [(st, (v[2], st.norm(v[3]), st.norm(v[3] + 1)))]
    if v[0] == "p":
        out = []
        for s, t in e.content_at(st.fork(), v[1], st.norm(v[2])):
            if s.dead: continue
            if t[0] == "o" and t[1] == "tok": out.append((s, (t[2], s.norm(t[3]), s.norm(t[3] + 1))))
            else: out.append((s, None))
        return out
    return [(st, None)]

TWIN = "both slices are reordered in the same way"
class Order(Plan):
    """C25"""
    props = ("C25",); probe = True
    def __init__(self, an):
        Plan.__init__(self, an)
        n = an.fn["name"]
        self.merge = n.startswith("merge")
        self.stable = n.startswith("insertion_sort") and "lower" not in n or self.merge
        self.rels = ("lex",) if self.merge else ("lt", "o") if self.stable else ("le",)
        self.srels = ("lex",) if self.stable else ("le",)
        self.goal = "lex" if self.stable else "le"
        an.e.ord = self; self.twins = None; self.heap = n == "heapify"
        if n == "insertion_sort2_indexes": self.mayfail = ("call core::result::unwrap_failed",)     # slices of different lengths
    def setup(self, x):
        st = x.st
        st.gh["#ord"] = ()
        self.rid = x.vs[0][1]
        if self.an.fn["name"].startswith("insertion_sort2"): self.twins = (self.rid, x.vs[1][1])
        v0 = self.e.ri[self.rid].ver0; L = st.regs[self.rid].len
        if self.an.nconst is not None: return self.fixed(x, v0, L)
        if self.stable: add(st, ("S", "o", (v0, ZERO, L)))
        if self.twins: add(st, ("T", v0, self.e.ri[self.twins[1]].ver0))
        if self.merge:
            le = x.ins[1]
            # the parts are sorted; a division point past the end is rejected, so nothing need be known then
            add(st, ("S", self.goal, (v0, ZERO, le))); add(st, ("S", self.goal, (v0, le, L)))
    def fixed(self, x, v0, L):
        """one order of a slice of given length: only the outcomes of comparisons that agree with it are followed"""
        st = x.st; nc = self.an.nconst; n = len(nc.ranks)
        st.gh["#ord"] = (); st.gh["#rank"] = {v0: tuple(nc.ranks)}; self.left = n
        for r in st.regs: 
            if self.e.ri[r].ver0 == v0 or not self.merge: st.add_eq(st.regs[r].len - n)
        if self.merge:
            self.left = nc.left
            st.add_eq(x.ins[1] - nc.left); st.add_eq(st.regs[x.ins[2][1]].len - max(nc.left, 1))
    def rank(self, st, p):
        r = st.gh["#rank"].get(p[0])
        return r[p[1].cval()] if r is not None and p[1].isconst() and 0 <= p[1].cval() < len(r) else None
    def user(self, e, st, c, args, t, sp):
        a = closure_args(c, args)
        tr = (c.get("trait") or "").rsplit("::", 1)[-1]; m = c.get("method")
        if a is not None and len(a) == 2: op = "lt"
        elif tr in ("Ord", "PartialOrd") and len(args) == 2: a = args; op = m
        else: return None
        if op not in ("lt", "le", "gt", "ge", "cmp", "partial_cmp"):
            if op in ("max", "min", "clamp", "eq", "ne"): st.approx = st.approx | {"comparison not followed"}
            return None
        out = []
        for s, p in deref_val(e, st, a[0]):
            for s2, q in deref_val(e, s, a[1]):
                if s2.dead or s2.infeasible(): continue
                if p is None or q is None: st.approx = st.approx | {"comparison not followed"}; return None
                out += self.answers(e, s2, op, p, q, t)
        return out
    def answers(self, e, st, op, p, q, t):
        if "#rank" in st.gh:
            a, b = self.rank(st, p), self.rank(st, q)
            if a is None or b is None:
                st.approx = st.approx | {"comparison not followed"}
                return [("ret", s, v) for s, v in e.havoc(st, t["dt"], "user")]
            d = ("lt", p, q) if a < b else ("gt", p, q) if a > b else ("eq", p, q)
            if op in ("cmp", "partial_cmp"):
                return [("ret", s, v) for s, v, n in ord_answers(e, st, t["dt"]) or () if n == {"lt": "Less", "gt": "Greater", "eq": "Equal"}[d[0]]]
            return [("ret", st.fork(), B(TRUE if d[0] in {"lt": ("lt",), "le": ("lt", "eq"), "gt": ("gt",), "ge": ("gt", "eq")}[op] else FALSE))]
        k = K(st); out = []
        def ok(rel, x, y):
            """can x rel y hold?"""
            return not k.pp("le" if rel == "lt" else "lt", y, x)
        def opt(value, fs):
            if not all(ok(*f) for f in fs): return
            s = st.fork()
            for f in fs: add(s, ("P",) + f)
            out.append(("ret", s, value))
        if op in ("cmp", "partial_cmp"):
            for s, v, n in ord_answers(e, st, t["dt"]) or ():
                if n == "Less": opt(v, [("lt", p, q)])
                elif n == "Greater": opt(v, [("lt", q, p)])
                elif n == "Equal": opt(v, [("le", p, q), ("le", q, p)])
            return out
        yes, no = {"lt": (("lt", p, q), ("le", q, p)), "le": (("le", p, q), ("lt", q, p)), "gt": (("lt", q, p), ("le", p, q)), "ge": (("le", q, p), ("lt", p, q))}[op]
        opt(B(TRUE), [yes]); opt(B(FALSE), [no])
        return out
    def recursed(self, e, s, key, rid, off, n, before, after, w):
        """a recursive call: the part is sorted afterwards (the property, by induction on the depth of the calls) and holds the
        same elements, so what related all of them to others still does"""
        if "#rank" in s.gh:
            rs = [self.rank(s, p) for p in self.tokens(s, before) or [("?", ZERO)]]
            if None not in rs and key == self.an.fn["key"]: s.gh["#rank"] = dict(s.gh["#rank"]); s.gh["#rank"][w] = tuple(sorted(rs))
            else: s.approx = s.approx | {"recursion summary"}
            return
        if not self.merge and key == self.an.fn["key"]: add(s, ("S", "le", (w, ZERO, n)))
        k = K(s)
        ps = [piece(a, b, g) for a, b, g in before]
        if any(p is None for p in ps): return
        ps = [(p[0], s.norm(p[1]), s.norm(p[2])) for p in ps]
        me = (w, ZERO, s.norm(n))
        for r in s.regs:
            for a, b, g in s.regs[r].segs:
                q = piece(a, b, g)
                if q is None or q[0] == w: continue
                q = (q[0], s.norm(q[1]), s.norm(q[2]))
                if all(k.pp("le", p, q) for p in ps): add(s, ("P", "le", me, q))
                if all(k.pp("le", q, p) for p in ps): add(s, ("P", "le", q, me))
    def tokens(self, st, segs):
        """the elements of segments with known bounds, or None"""
        out = []
        for a, b, src in segs:
            a, b = st.norm(a), st.norm(b)
            if not (a.isconst() and b.isconst()): return None
            for i in range(a.cval(), b.cval()):
                p = piece(const(i), const(i + 1), src)
                if p is None: return None
                out.append((p[0], st.norm(p[1])))
        return out
    def heapend(self, x):
        st = x.st; what = "no element is greater than its heap children on return"
        if self.an.nconst is not None:
            ts = self.tokens(st, st.regs[self.rid].segs)
            rs = None if ts is None else [self.rank(st, p) for p in ts]
            if rs is None or None in rs: st.approx = st.approx | {"elements not known"}; rs = ()
            good = all(rs[(i - 1) // 2] <= rs[i] for i in range(1, len(rs)))
            if not good: st.trace = st.trace + ("order of the elements of the input: %s; after the call: %s" % (list(self.an.nconst.ranks), rs),)
            return self.need("C29", what, st, TRUE if good and rs != () or st.approx == frozenset() and not rs else FALSE)
        good = heapcheck(st, self.e, ("H", self.rid, ZERO, None)); s = st
        if not good:
            s = st.fork(); s.approx = s.approx | {"order facts"}
            if self.e.debug: print("NOHEAP", st.regs[self.rid].segs, [repr(q) for q in st.cons][:40]); [print("    ", f) for f in facts(st)]
        self.need("C29", what, s, TRUE if good else FALSE)
    def refute(self, x, what):
        """the elements of a slice with a given order are where the steps of the function have put them"""
        st = x.st
        ts = self.tokens(st, st.regs[self.rid].segs)
        rs = None if ts is None else [self.rank(st, p) for p in ts]
        if rs is None or None in rs: st.approx = st.approx | {"elements not known"}; rs = None
        good = rs is not None and all(a <= b for a, b in zip(rs, rs[1:])) and not (self.stable and any(rs[i] == rs[i + 1] and ts[i][1].cval() > ts[i + 1][1].cval() for i in range(len(rs) - 1)))
        if not good and rs is not None: st.trace = st.trace + ("order of the elements of the input: %s; after the call: %s (original positions %s)" % (list(self.an.nconst.ranks), rs, [p[1].cval() for p in ts]),)
        self.need("C25", what, st, TRUE if good else FALSE)
        if self.twins:
            us = self.tokens(st, st.regs[self.twins[1]].segs); u0 = self.e.ri[self.twins[1]].ver0
            if ts is None or us is None or any(p[0] != u0 for p in us): st.approx = st.approx | {"elements not known"}
            self.need("C25", TWIN, st, TRUE if [p[1] for p in ts or ()] == [p[1] for p in us or ()] else FALSE)
    def end(self, x):
        st = x.st; e = self.e
        if self.heap: return self.heapend(x)
        if self.merge and (not isinstance(x.out, Var) or x.out.n == "Err"): return
        what = "the slice is in ascending order on return" if not self.merge else "the data is in ascending order on return when both parts were"
        if self.stable: what += ", equal elements in their original order"
        if self.an.nconst is not None: return self.refute(x, what)
        if self.twins:
            good = twin(st, *self.twins); s = st
            if not good: s = st.fork(); s.approx = s.approx | {"order facts"}
            self.need("C25", TWIN, s, TRUE if good else FALSE)
        for s, ps in pieces(e, st, self.rid, ZERO, st.norm(st.regs[self.rid].len)):
            good = ps is not None and sorted_pieces(K(s), self.goal, ps)
            if not good: s.approx = s.approx | {"order facts"}
            self.need("C25", what, s, TRUE if good else FALSE)
            if not good and e.debug:
                print("UNSORTED", ps, [repr(q) for q in s.cons][:30]); [print("    ", f) for f in facts(s)]
class Heap(Order):
    """C29"""
    props = ("C29",); probe = False

class Origin(Order):
    """C23: what was in the data stays there, what was in the buffer as well"""
    props = ("C23",)
    def __init__(self, an):
        Order.__init__(self, an); self.rels = (); self.srels = COL
    def setup(self, x):
        st = x.st; self.rid = x.vs[0][1]; self.bid = x.vs[2][1]
        st.gh["#ord"] = ()
        ver = lambda r: self.e.ri[r].ver0
        if self.an.nconst is not None:
            self.fixed(x, ver(self.rid), st.regs[self.rid].len); return
        add(st, ("S", "dat", (ver(self.rid), ZERO, st.regs[self.rid].len))); add(st, ("S", "buf", (ver(self.bid), ZERO, st.regs[self.bid].len)))
    def user(self, e, st, c, args, t, sp): return Order.user(self, e, st, c, args, t, sp) if self.an.nconst is not None else None
    def recursed(self, *a): pass
    def end(self, x):
        st = x.st; e = self.e
        if not isinstance(x.out, Var) or x.out.n == "Err": return
        for rid, col, what in ((self.rid, "dat", "the data holds only its own elements on return"), (self.bid, "buf", "the buffer holds only its own elements on return")):
            if self.an.nconst is not None:
                ts = self.tokens(st, st.regs[rid].segs)
                if ts is None: st.approx = st.approx | {"elements not known"}
                good = ts is not None and all(p[0] == e.ri[rid].ver0 for p in ts)
                if ts is not None and not good: st.trace = st.trace + ("order of the elements of the data: %s, division at %d" % (list(self.an.nconst.ranks), self.left),)
                self.need("C23", what, st, TRUE if good else FALSE); continue
            for s, ps in pieces(e, st, rid, ZERO, st.norm(st.regs[rid].len)):
                good = ps is not None and sorted_pieces(K(s), col, ps)
                if not good:
                    s.approx = s.approx | {"order facts"}
                    if e.debug: print("COLOUR", ps, [repr(q) for q in s.cons][:30]); [print("    ", f) for f in facts(s)]
                self.need("C23", what, s, TRUE if good else FALSE)

class Given:
    """a slice of known length with a given order of its elements (equal numbers: equal elements), left part first"""
    def __init__(self, ranks, left=0): self.ranks = ranks; self.left = left
    def __str__(self): return "%d elements" % len(self.ranks)
def given(fn, tier):
    """the orders in which a counterexample is looked for when the proof fails: [(Given, limit of iterations)]"""
    import itertools, random
    n = fn["name"]; out = []; rnd = random.Random(1); more = 1 if tier == "quick" else 5
    def shapes(k):
        up = list(range(k)); r = [up, up[::-1], [0] * k, up[::2] + up[1::2][::-1], [i % 2 for i in up], [i % 3 for i in up]]
        for _ in range(3 * more):
            p = up[:]; rnd.shuffle(p); r += [p, [v // 3 for v in p]]
        return r
    weak = lambda k: [list(rs) for rs in itertools.product(range(k), repeat=k) if set(rs) == set(range(max(rs) + 1))] if k else [[]]
    if n.startswith("merge"):
        for k in range(0, 6 if tier == "quick" else 7):
            for rs in itertools.product(range(3), repeat=k):
                for l in range(0, k + 1):
                    if list(rs[:l]) == sorted(rs[:l]) and list(rs[l:]) == sorted(rs[l:]): out.append(Given(list(rs), l))
        for k in (9, 14, 20, 40, 72):
            for rs in shapes(k)[:None if k < 40 else 6]:
                l = rnd.randint(0, k); out.append(Given(sorted(rs[:l]) + sorted(rs[l:]), l))
    elif n == "heapify":
        for k in range(0, 8): out += [Given(list(rs)) for rs in (itertools.permutations(range(k)) if k < 6 else [rnd.sample(range(k), k) for _ in range(100 * more)])]
        for k in (11, 16, 24, 41, 80, 150, 290): out += [Given(rs) for rs in shapes(k)[:None if k < 100 else 7]]
    elif n.startswith("quick"):
        for k in range(0, 4): out += [Given(rs) for rs in weak(k)]
        for k in (12, 25, 26, 27, 28, 30, 33, 50, 75): out += [Given(rs) for rs in shapes(k)]
    else:
        for k in range(0, 5 if tier == "quick" else 6): out += [Given(rs) for rs in weak(k)]
        for k in (7, 10, 16, 28): out += [Given(rs) for rs in shapes(k)]
    return [(g, 2 * len(g.ranks) + 3) for g in out]

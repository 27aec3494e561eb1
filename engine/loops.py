"""Loop summaries: disjunctive header states by shape, invariants by template inference with Houdini-style
weakening (greatest inductive subset of a finite candidate set), element contents by fresh versions with
multiset accounting."""
from collections import OrderedDict
import poly, lp, term, order
from poly import P, ZERO, ONE, const, var, sym
import state as S
from state import St, Reg, I, B, UNDEF, TRUE, FALSE, ge, eq, UMAX
from interp import Unsupported

MAXROUNDS = 40
MAXSHAPES = 24

def shape(v, L):
    k = v[0]
    if k == "i": L.append(v[1]); return ("i",)
    if k == "s": return ("s", tuple(shape(x, L) for x in v[1]))
    if k == "e": return ("e", v[1], tuple(shape(x, L) for x in v[2]))
    if k == "c": return ("c", v[1], tuple(shape(x, L) for x in v[2]))
    if k == "p": L.append(v[2]); return ("p", v[1])
    if k == "f": L.append(v[2]); L.append(v[3]); return ("f", v[1])
    if k in ("it", "itm", "prg"): L.append(v[2]); L.append(v[3]); return (k, v[1])
    if k == "un": return ("un", shape(v[1], L))
    if k == "raw": L.append(v[1]); return ("raw", shape(v[2], L))
    if k == "o": L.append(v); return ("o",)
    return v
def rebuild(sh, it):
    k = sh[0]
    if k == "i": return ("i", next(it))
    if k == "s": return ("s", tuple(rebuild(x, it) for x in sh[1]))
    if k in ("e", "c"): return (k, sh[1], tuple(rebuild(x, it) for x in sh[2]))
    if k == "p": return ("p", sh[1], next(it))
    if k == "f": a = next(it); return ("f", sh[1], a, next(it))
    if k in ("it", "itm", "prg"): a = next(it); return (k, sh[1], a, next(it))
    if k == "un": return ("un", rebuild(sh[1], it))
    if k == "raw": a = next(it); return ("raw", a, rebuild(sh[1], it))
    if k == "o": return next(it)
    return sh
def abstract(e, st, cells):
    """-> (shape, leaves); leaves are polynomials or opaque values"""
    L = []
    mem = tuple((c, shape(st.mem.get(c, UNDEF), L)) for c in cells)
    gh = []
    for k in sorted(st.gh, key=str):
        v = st.gh[k]
        if isinstance(v, P): L.append(v); gh.append((k, "P"))
        elif k in ("#len0", "#ord"): gh.append((k, "fixed"))
        else:
            try: hash(v); gh.append((k, v))
            except TypeError: gh.append((k, str(v)))
    regs = tuple(sorted(st.regs))
    for r in regs: L.append(st.regs[r].len)
    bl = tuple(sorted((k, v) for k, v in st.bools.items()))
    return (mem, tuple(gh), regs), [st.norm(x) if isinstance(x, P) else x for x in L]

class H:
    def __init__(self, sh, n):
        self.sh = sh; self.fixed = [None] * n; self.gen = {}; self.cands = []; self.fresh = False; self.regs = {}; self.acct = {}
        self.delta = False; self.entry = None; self.taint = frozenset(); self.approx = frozenset(); self.proto = None; self.group = None; self.deltas = []; self.basis = None; self.ord = None; self.ordall = []

def widen(e, s0, run, label="loop"):
    cells = sorted(s0.mem)
    if e.ord: s0 = order.canonical(e, s0)
    base = poly._next[0]
    def outer(p): return all(x <= base for x in p.syms())
    def header(h, withord=True):
        st = s0.fork()
        leaves = []
        for i, f in enumerate(h.fixed):
            g = h.gen.get(i)
            if g is None: leaves.append(f)
            elif g == "opq": leaves.append(("o", "x", sym("loopval")))
            else: leaves.append(var(g))
        it = iter(leaves)
        for c, sh in h.sh[0]: st.mem[c] = rebuild(sh, it)
        gh = {}
        for k, m in h.sh[1]:
            if m == "P": gh[k] = next(it)
            elif k in st.gh and m == "fixed": gh[k] = st.gh[k]
            else: gh[k] = h.proto.gh[k]
        st.gh = gh
        for r in h.sh[2]:
            ln = next(it)
            if r in h.regs:
                st.regs[r] = Reg(ln, ((ZERO, ln, ("v", h.regs[r], ZERO)),))
            elif r in s0.regs: st.regs[r] = Reg(ln, s0.regs[r].segs)
            else: st.regs[r] = Reg(ln, h.proto.regs[r].segs)
        st.taint = st.taint | h.taint
        if h.gen or h.regs or h.proto is not s0: st.approx = st.approx | h.approx | {"loop summary"}
        for i, g in h.gen.items():
            if g != "opq": pass
        eqs = [c for c in h.cands if c[0] == "eq"]
        for c in eqs: st.add_eq(c[1])
        if h.basis is None or h.basis[0] is not h.cands:
            # drop candidates implied by the others (kept: an irredundant subset, strongest first)
            ks = []
            one = {}
            for c in h.cands:
                if c[0] != "ge": continue
                p = lp.tighten(S.strip_pos_ge(st.norm(c[1])))
                if p.isconst():
                    if p.cval() < 0: ks.append(c)
                    continue
                k0 = p.d.get((), 0); lin = p - k0
                o = one.get(lin)
                if o is None or k0 < o[0]: one[lin] = (k0, c, p)
            todo = sorted(one.values(), key=lambda t: (len(t[2].d), t[0]))
            if len(todo) > 12:
                kept = []
                for k0, c, p in todo:
                    if not st.entails_ge(p): st.add_ge(p); kept.append(c)
                # second pass: later constraints may imply earlier ones
                if st.dead: kept = [c for _, c, _ in todo]
                ks += kept
            else: ks += [c for _, c, _ in todo]
            h.basis = (h.cands, ks)
        for c in h.basis[1]:
            if not st.dead: st.add_ge(c[1])
        for r, w in h.regs.items():
            a = h.acct.get(r)
            if a is not None:
                ln, tot = a(st)
                st.acct[w] = (ln, tot)
        if h.ord and withord: order.assume(st, h, [order.subst(c, {}, st) for c in h.ord])
        st.guards = set()
        return st
    def leafsub(h, leaves): return {g: leaves[i] for i, g in h.gen.items() if g != "opq"}
    hs = OrderedDict()
    sh0, l0 = abstract(e, s0, cells)
    h = H(sh0, len(l0)); h.fixed = list(l0); h.proto = s0; h.entry = l0
    hs[sh0] = h
    guards = {}; probes = None
    e.mute += 1
    try:
        for rnd in range(MAXROUNDS):
            arr = OrderedDict()
            for sh in hs: arr[sh] = []
            arr[sh0].append((s0, l0, None))
            for sh, h in list(hs.items()):
                st = header(h)
                if st.dead: continue
                gs = st.guards
                for ex in run(st):
                    if ex[0] != "back": continue
                    for s in e.split_bools(ex[2], cells):
                        if s.dead: continue
                        k, lv = abstract(e, s, cells)
                        if k not in arr:
                            if len(arr) >= MAXSHAPES: raise Unsupported("too many shapes at a loop header")
                            arr[k] = []
                        arr[k].append((s, lv, h if k == sh else None))
                guards.setdefault(sh, set()).update(gs)
            changed = False
            for k, A in arr.items():
                if not A: continue
                h = hs.get(k)
                if h is None:
                    h = H(k, len(A[0][1])); h.proto = A[0][0]; h.fixed = list(A[0][1]); hs[k] = h; changed = True; h.fresh = True
                    h.entry = A[0][1]
                    for i, f in enumerate(h.fixed):
                        if isinstance(f, P):
                            if not outer(f): h.gen[i] = sym("loop_%d" % i)
                        elif f[1] == "x" and f[2] > base or f[1] != "x": h.gen[i] = "opq"
                grown = h.fresh; h.fresh = False
                for s, lv, src in A:
                    if s.taint - h.taint: h.taint |= s.taint; changed = True
                    if s.approx - h.approx: h.approx |= s.approx
                    for i, f in enumerate(h.fixed):
                        if i in h.gen: continue
                        if isinstance(f, P):
                            if not s.entails(eq(lv[i] - f)): h.gen[i] = sym(leafname(e, h, i)); grown = True
                        elif lv[i] != f: h.gen[i] = "opq"; grown = True
                # element contents
                for r in k[2]:
                    if r in h.regs: continue
                    ref = s0.regs[r].segs if r in s0.regs else h.proto.regs[r].segs
                    for s, lv, src in A:
                        if not samesegs(s, s.regs[r].segs, ref):
                            h.regs[r] = sym("loopcontent_%s" % e.ri[r].name); grown = True; break
                if h.regs: account(e, h, s0, A)
                if grown:
                    changed = True
                    h.delta = False
                    h.cands = [c for c in candidates(e, h, A, s0, guards.get(k, ()), base, l0) if holds(c, h, A, leafsub)]
                else:
                    keep = [c for c in h.cands if holds(c, h, A, leafsub)]
                    if len(keep) != len(h.cands): changed = True
                    h.cands = keep
                    if not h.delta and h.gen:
                        h.delta = True
                        new = [c for c in functionals(h, A, outer) if c not in h.cands and holds(c, h, [a for a in A if a[2] is not h], leafsub)]
                        if new:
                            # start over with every candidate: with the new equalities more of them may be inductive
                            ent = [a for a in A if a[2] is not h]
                            h.cands = [c for c in candidates(e, h, A, s0, guards.get(k, ()), base, l0) if holds(c, h, ent, leafsub)] + new; changed = True
                if h.ord and not changed:
                    # a candidate that implied smaller ones and fails leaves them to be tried in its place
                    caches = {}; done = set()
                    while True:
                        bad = []
                        for c in h.ord:
                            if c in done: continue
                            for s, lv, src in A:
                                m = leafsub(h, lv)
                                if not order.check(e, s, order.subst(c, m, s), caches.setdefault(id(s), {})):
                                    bad.append(c)
                                    if e.debug: print("DROP", label[:60], c, "as", order.subst(c, m, s), [order.pieces(e, s, *g) for g in order.subst(c, m, s)[2:] if isinstance(g, tuple)], order.facts(s))
                                    break
                            else: done.add(c)
                        if not bad: break
                        changed = True
                        h.ordall = [c for c in h.ordall if c not in bad]
                        h.ord = order.prune(e, header(h, False), h, h.ordall)
            if not changed and e.ord:
                # the numeric invariants are stable: look for facts about the order of the contents
                if probes is None and e.ord.probe:
                    # states after the first iterations: what does not hold in them is no invariant
                    probes = {k: [] for k in hs}; probes.setdefault(sh0, []).append((s0, l0)); fr = [s0]; seen = {sh0}
                    for d in range(3):
                        nx = []
                        for s in fr[:12]:
                            for ex in run(s.fork()):
                                if ex[0] != "back": continue
                                for s2 in e.split_bools(ex[2], cells):
                                    if s2.dead or s2.infeasible(): continue
                                    k2, lv2 = abstract(e, s2, cells)
                                    if k2 in probes: probes[k2].append((s2, lv2)); nx.append(s2); seen.add(k2)
                        fr = nx
                        if all(k in seen for k in hs): break
                for k, h in hs.items():
                    if h.ord is not None or not arr.get(k): continue
                    h.ord = []
                    if len(arr[k]) == 1 and arr[k][0][0] is s0 and not h.gen and not h.regs: continue
                    st = header(h)
                    if st.dead: continue
                    known = set(h.gen.values())
                    def okp(p): return all(x <= base or x in known for x in p.syms())
                    A = arr[k]; backs = [s for s, lv, src in A if s is not s0]
                    cands = order.candidates(e, h, st, backs, [lv for s, lv, src in A if s is not s0], s0, l0, okp, e.ord.rels, e.ord.srels)
                    ent = probes.get(k, ()) if probes is not None else [(s0, l0)] if k == sh0 else []
                    for s, lv in ent:
                        m = leafsub(h, lv); cache = {}
                        keep = [c for c in cands if order.check(e, s, order.subst(c, m, s), cache)]
                        if e.debug:
                            for c in cands:
                                if c not in keep: print("DROP0", label[:60], c, "as", order.subst(c, m, s), [order.pieces(e, s, *g) for g in order.subst(c, m, s)[2:] if isinstance(g, tuple)] + [order.facts(s)] if c[0] == "S" else "")
                        cands = keep
                    if e.debug: print("ORD", label, len(cands), "candidates")
                    h.ordall = cands; h.ord = order.prune(e, st, h, cands)
                    if h.ord: changed = True
            if not changed: break
        else: raise Unsupported("loop invariants did not stabilise")
    finally:
        e.mute -= 1
    out = []; ids = {k: i for i, k in enumerate(hs)}
    e.loopstat.append((label, len(hs), sum(len(h.cands) for h in hs.values()), rnd + 1))
    if e.debug:
        for h in hs.values():
            print("LOOP", label, "rounds", rnd + 1, "gen", {i: (g if g == "opq" else poly.name(g)) for i, g in h.gen.items()})
            st = header(h)
            if h.ord: print("   ORDER", [c[:2] + tuple((e.ri[g[0]].name,) + g[1:] if isinstance(g, tuple) else g for g in c[2:]) for c in h.ord])
            print("   ", [repr(c) for c in st.cons if any(x > base for x in c.syms())], {poly.name(k): repr(v) for k, v in st.sub.items() if k > base})
    trans = []
    for sh, h in hs.items():
        st = header(h)
        if st.dead: continue
        pre = abstract(e, st, cells)[1] if e.tm and not e.mute else None
        for ex in run(st):
            if ex[0] != "back":
                ex[2].guards = s0.guards
                out.append(ex)
            elif pre is not None:
                for s in e.split_bools(ex[2], cells):
                    if s.dead: continue
                    k, lv = abstract(e, s, cells)
                    nr = lambda L: [s.norm(x) if isinstance(x, P) else x for x in L]
                    trans.append(term.Trans(ids[sh], ids.setdefault(k, len(ids)), term.vals(sh, nr(pre)), term.vals(k, lv), s))
    if e.tm and not e.mute and label != "loop":
        terms = [ZERO] + [f for h in hs.values() for f in h.fixed if isinstance(f, P) and outer(f)]
        ts = []
        for t in terms:
            for q in (t, -t):
                if q not in ts: ts.append(q)
        e.tm.loop(label, trans, outer, ts + [x - y for x in ts[1:9] for y in ts[1:9] if x != y and x != -y])
    return out

def leafname(e, h, i):
    return "loop%d" % i
def samesegs(s, a, b):
    if a == b: return True
    a = tuple((s.norm(x), s.norm(y), z) for x, y, z in a); b = tuple((s.norm(x), s.norm(y), z) for x, y, z in b)
    if a == b: return True
    def merge(t):
        out = []
        for x, y, z in t:
            if s.entails(eq(x - y)): continue
            if out and z[0] == "v" and out[-1][2][0] == "v" and out[-1][2][1:] == z[1:]: out[-1] = (out[-1][0], y, z)
            else: out.append((x, y, z))
        return out
    a, b = merge(a), merge(b)
    if len(a) != len(b): return False
    return all(s.entails(eq(p[0] - q[0])) and s.entails(eq(p[1] - q[1])) and p[2] == q[2] for p, q in zip(a, b))
def account(e, h, s0, A):
    """multiset conservation per region, else for the group of all changed regions"""
    rs = sorted(h.regs)
    def conserved(rids):
        for s, lv, src in A:
            if src is None and s is s0: continue
            if e.mdiff(s, e.total(s, rids), {(k if k[0] != "S" else ("S", k[1], s.norm(k[2]))): c for k, c in e.total(s0, rids).items()}): return False
        return True
    good = [r for r in rs if r in s0.regs and conserved([r])]
    h.acct = {}
    for r in good:
        tot = e.total(s0, [r])
        h.acct[r] = (lambda tot, r: lambda st: (st.regs[r].len, e._renorm(st, tot)))(tot, r)
    bad = [r for r in rs if r not in good]
    if len(bad) > 1 and all(r in s0.regs for r in bad) and conserved(bad):
        last = bad[-1]
        tot = e.total(s0, bad)
        def f(st, tot=tot, bad=bad, last=last):
            t = e._renorm(st, tot)
            for r in bad[:-1]: e.madd(st, t, ("S", h.regs[r], st.norm(st.regs[r].len)), -1)
            return st.regs[last].len, t
        h.acct[last] = f
def holds(c, h, A, leafsub):
    for s, lv, src in A:
        p = c[1].subst(leafsub(h, lv))
        if c[0] == "ge":
            if not s.entails_ge(p): return False
        elif not s.entails(eq(p)): return False
    return True
def candidates(e, h, A, s0, guards, base, l0=()):
    gen = [(i, var(g)) for i, g in h.gen.items() if g != "opq"]
    path = []
    if all(a[0] is not s0 for a in A):
        # facts about loop-invariant quantities that the paths into this header established
        for s, lv, src in A[:3]:
            for q in s.cons:
                if all(x <= base for x in q.syms()) and ("ge", q) not in path and not s0.entails_ge(q): path.append(("ge", q))
            for x, q in s.sub.items():
                if x <= base and x not in s0.sub and all(y <= base for y in q.syms()): path.append(("eq", var(x) - q))
    if not gen: return path
    terms = OrderedDict()
    terms[ZERO] = 1
    for i, f in enumerate(h.fixed):
        if i not in h.gen and isinstance(f, P): terms.setdefault(s0.norm(f), 1)
    for r in s0.regs: terms.setdefault(s0.norm(s0.regs[r].len), 1)
    for i, g in gen:
        f = h.entry[i]
        if all(x <= base for x in f.syms()): terms.setdefault(s0.norm(f), 1)
    for f in l0:
        if isinstance(f, P): terms.setdefault(s0.norm(f), 1)
    terms = [t for t in terms if all(x <= base for x in t.syms())][:14]
    out = []
    def add(k, p):
        c = (k, p)
        if c not in seen: seen.add(c); out.append(c)
    seen = set()
    for c in path: add(*c)
    gv = [v for i, v in gen]
    ent = {}
    for i, v in gen:
        f = h.entry[i]
        if isinstance(f, P) and all(x <= base for x in f.syms()): ent[v] = f
    for v in gv:
        add("ge", UMAX - v)
        for t in terms:
            add("eq", v - t)
            add("ge", v - t); add("ge", t - v); add("ge", v - t - 1); add("ge", t - v - 1)
    for a in range(len(gv)):
        for b in range(a + 1, len(gv)):
            x, y = gv[a], gv[b]
            add("eq", x - y)
            add("ge", x - y); add("ge", y - x); add("ge", x - y - 1); add("ge", y - x - 1)
            if x in ent and y in ent:
                add("eq", (x - ent[x]) - (y - ent[y])); add("eq", (x - ent[x]) + (y - ent[y]))
            for t in terms:
                if t.d:
                    if t.isconst(): continue
                    add("eq", x + y - t)
                    add("ge", t - x - y); add("ge", x + y - t)
                    add("eq", x - y - t); add("eq", y - x - t)
                    add("ge", x - y - t); add("ge", t - x + y); add("ge", y - x - t); add("ge", t - y + x)
    for a in range(len(gv)):
        for b in range(a + 1, len(gv)):
            for c in range(len(gv)):
                if c == a or c == b or len(gv) > 6: continue
                z = gv[c]; x = gv[a]; y = gv[b]
                add("ge", z - x - y); add("eq", z - x - y)
                if "gW" in s0.gh: add("ge", x + y - z)
                for t in terms[:6]:
                    add("eq", z - x - y + t); add("eq", z - x - y - t)
    vs = set(x for v in gv for x in v.syms())
    for f in guards:
        if f[0] in ("ge", "eq", "ne") and f[1].syms() & vs and all(x <= base or x in vs for x in f[1].syms()):
            p = f[1]
            for q in (p, -p, p + 1, -p - 1, 1 - p): add("ge", q)
    return out
def functionals(h, A, outer):
    """conserved linear functionals of the int leaves over the ring of loop-invariant polynomials: from the per-path
    changes d_1.. of the leaves, all (pairs and triples) combinations that every path leaves unchanged"""
    gens = [(i, g) for i, g in h.gen.items() if g != "opq"]
    vecs = []
    for s, lv, src in A:
        if src is not h: continue
        v = []
        for i, g in gens:
            d = s.norm(lv[i] - s.norm(var(g)))
            v.append(d if outer(d) else None)
        if v not in vecs and any(d is None or d.d for d in v): vecs.append(v)
    if not vecs or len(vecs) > 4: return []
    ent = [h.entry[i] for i, g in gens]
    out = []
    n = len(gens)
    def lin(ix, al):
        p = ZERO
        for i, a in zip(ix, al):
            if not outer(ent[i]): return
            p = p + a * (var(gens[i][1]) - ent[i])
        if p.d: out.append(("eq", p))
    for a in range(n):
        for b in range(a + 1, n):
            if any(v[a] is None or v[b] is None for v in vecs): continue
            da, db = vecs[0][a], vecs[0][b]
            if not da.d or not db.d: continue
            if all((db * v[a] - da * v[b]) == ZERO for v in vecs): lin((a, b), (db, -da))
    if len(vecs) >= 2 and n <= 8:
        for a in range(n):
            for b in range(a + 1, n):
                for c in range(b + 1, n):
                    if any(v[x] is None for v in vecs for x in (a, b, c)): continue
                    u, w = [vecs[0][x] for x in (a, b, c)], [vecs[1][x] for x in (a, b, c)]
                    cr = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
                    if not any(x.d for x in cr): continue
                    if all((cr[0] * v[a] + cr[1] * v[b] + cr[2] * v[c]) == ZERO for v in vecs): lin((a, b, c), cr)
    return out

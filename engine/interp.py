"""Abstract interpreter over the extracted MIR."""
import sys
from poly import P, ZERO, ONE, const, var, sym, name
import state as S
from state import St, Reg, RInfo, I, B, UNIT, UNDEF, TRUE, FALSE, ge, eq, ne, f_and, f_or, f_not, UMAX, IMAX, U64, POS
import lp
sys.setrecursionlimit(20000)

class Item(dict):
    """a function item, usable in state keys"""
    def __hash__(self): return hash((self.get("key"), self.get("def")))
class Unsupported(Exception): pass
class Budget(Exception): pass

INTS = {"usize": (64, False), "u64": (64, False), "u32": (32, False), "u16": (16, False), "u8": (8, False), "u128": (128, False),
        "isize": (64, True), "i64": (64, True), "i32": (32, True), "i16": (16, True), "i8": (8, True), "i128": (128, True)}
def irange(t):
    b, s = INTS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

class Frame:
    __slots__ = ("body", "base", "key", "depth", "loops", "info", "mode")
class Loop:
    __slots__ = ("header", "body", "id")

class BodyInfo:
    """CFG facts of a body: natural loops, liveness at loop headers"""
    def __init__(self, b):
        self.b = b
        n = len(b["blocks"])
        succ = []
        for bl in b["blocks"]:
            t = bl["t"]; k = t["k"]
            s = []
            if k == "goto": s = [t["t"]]
            elif k == "switch": s = [x[1] for x in t["v"]] + [t["o"]]
            elif k in ("drop", "assert"): s = [t["t"]]
            elif k == "call": s = [t["t"]] if t["t"] is not None else []
            succ.append(s)
        self.succ = succ
        # dominators (iterative, from block 0, normal edges only)
        order = []; seen = set()
        st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(succ[v]))); break
            else:
                order.append(u); st.pop()
        order.reverse()
        num = {u: i for i, u in enumerate(order)}
        pred = {u: [] for u in order}
        for u in order:
            for v in succ[u]: pred[v].append(u)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                new = None
                for p in pred[u]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            new = a
                if idom.get(u) != new: idom[u] = new; ch = True
        def dom(a, u):
            while True:
                if a == u: return True
                if u == 0: return False
                u = idom[u]
        loops = {}
        for u in order:
            for v in succ[u]:
                if dom(v, u):
                    body = loops.setdefault(v, {v})
                    wl = [u]
                    while wl:
                        x = wl.pop()
                        if x in body: continue
                        body.add(x); wl += pred[x]
        # a loop reaches its exits' "break" tails only outside the body
        self.loops = loops
        # liveness of locals (no address-taken locals are ever considered dead)
        nl = len(b["locals"])
        addr = set()
        use = []; deff = []
        def pl_use(p, u, d, isdef):
            l, proj = p
            if isdef and not proj: d.add(l) if l not in u else None
            else: u.add(l)
            for e in proj:
                if isinstance(e, dict) and "i" in e and e["i"] not in d: u.add(e["i"])
        def op_use(o, u, d):
            for k in ("copy", "move"):
                if k in o and o[k][0] not in d: 
                    u.add(o[k][0])
                    for e in o[k][1]:
                        if isinstance(e, dict) and "i" in e and e["i"] not in d: u.add(e["i"])
        for bl in b["blocks"]:
            u = set(); d = set()
            for s in bl["s"]:
                if s["k"] == "=":
                    r = s["r"]
                    for f in ("a", "b"):
                        x = r.get(f)
                        if isinstance(x, dict): op_use(x, u, d)
                        elif isinstance(x, list):
                            for y in x: op_use(y, u, d)
                    if "p" in r:
                        if r["p"][0] not in d: u.add(r["p"][0])
                        for e in r["p"][1]:
                            if isinstance(e, dict) and "i" in e and e["i"] not in d: u.add(e["i"])
                        if r["k"] in ("ref", "rawptr") and "*" not in r["p"][1]: addr.add(r["p"][0])
                    if s["p"][1]:
                        if s["p"][0] not in d: u.add(s["p"][0])
                    else: d.add(s["p"][0])
                elif s["k"] == "dead": d.add(s["l"])
                elif s["k"] in ("assume",): op_use(s["a"], u, d)
                elif s["k"] == "copynov":
                    for f in ("src", "dst", "n"): op_use(s[f], u, d)
                elif s["k"] == "setd":
                    if s["p"][0] not in d: u.add(s["p"][0])
            t = bl["t"]
            if t["k"] == "call":
                op_use(t["f"], u, d)
                for y in t["a"]: op_use(y, u, d)
                if t["d"][1]:
                    if t["d"][0] not in d: u.add(t["d"][0])
                else: d.add(t["d"][0])
            elif t["k"] in ("switch", "assert"): op_use(t["a"], u, d)
            elif t["k"] == "drop":
                if t["p"][0] not in d: u.add(t["p"][0])
            elif t["k"] == "return": u.add(0)
            use.append(u); deff.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for v in succ[i]: out |= live[v]
                t = b["blocks"][i]["t"]
                if isinstance(t.get("u"), int): out |= live[t["u"]]
                new = use[i] | (out - deff[i])
                if new != live[i]: live[i] = new; ch = True
        self.live = live
        self.addr = addr

PANIC_OK = ()
class Engine:
    def __init__(self, facts, unwind=False, mode="widen", unroll=3, budget=400000):
        self.f = facts
        self.ty = facts["types"]
        self.bodies = facts["bodies"]
        self.info = {}
        self.ri = {}           # region id -> RInfo
        self.cell = 0
        self.unwind = unwind
        self.mode = mode
        self.unroll = unroll
        self.steps = 0
        self.budget = budget
        self.mute = 0
        self.obl = []          # recorded obligations
        self.stack = []; self.tm = None; self.ord = None
        self.hooks = {}
        self.sizes = {}
        self.versinfo = {}
        self.visited = set()
        self.uncertain = []    # reasons for incompleteness of this run
        self.on_user = None
        self.on_access = None
        self.on_store = None
        self.nowrap = None
        self.on_value = None
        self.loopstat = []
        self.debug = False
        self.truncated = False
        self.models = {}
        self.tparams = {}
        self.skip_suffix = ()
        import models
        models.install(self)
    def mk_pindex(self, tyix, p):
        import inputs
        return inputs.mk_pindex(self, tyix, p)
    # ---------------------------------------------------------------- symbols
    def fresh(self, st, nm, t="usize"):
        s = sym(nm)
        p = var(s)
        if t in INTS:
            lo, hi = irange(t)
            st.add_ge(p - lo); st.add_ge(const(hi) - p)
        return p
    def newcell(self, st, v):
        self.cell += 1
        st.mem[self.cell] = v
        return self.cell
    def size_of(self, tyix):
        t = self.ty[tyix]
        if t["k"] == "int": return const(INTS[t["int"]][0] // 8)
        if t["k"] == "bool": return const(1)
        if t["k"] in ("ref", "ptr"):
            to = self.ty[t["to"]]
            return const(16 if to["k"] in ("slice", "str") else 8)
        nm = t["name"]
        if nm not in self.sizes:
            s = sym("size_of<%s>" % nm)
            POS.add(s)
            self.sizes[nm] = s
        return var(self.sizes[nm])
    def new_region(self, st, nm, perm, ln, elt=None, brand=None):
        rid = len(self.ri) + 1
        addr = sym("addr_" + nm); POS.add(addr)
        size = self.size_of(elt) if elt is not None else None
        if size is None:
            s = sym("size_" + nm); POS.add(s); size = var(s)
        ver = self.newver("init_" + nm)
        self.ri[rid] = RInfo(rid, nm, perm, size, var(addr), ver, brand, elt)
        st.regs[rid] = Reg(ln, ((ZERO, ln, ("v", ver, ZERO)),))
        for x in size.syms(): st.add_ge(var(x) - 1)
        st.add_ge(var(addr) - 1)
        st.add_ge(ln); st.add_ge(IMAX - ln)
        # the allocation does not wrap around the address space and is at most isize::MAX bytes
        st.add_ge(UMAX - var(addr) - size * ln)
        st.add_ge(IMAX - size * ln)
        return rid
    def newver(self, nm):
        v = sym("content_" + nm)
        return v
    # ---------------------------------------------------------------- obligations
    def oblige(self, st, tag, f, what, sp):
        """tag: obligation class. Records the verdict and continues with f assumed."""
        ok = st.entails(f)
        if not self.mute:
            self.obl.append((tag, what, sp, "ok" if ok else "fail", None if ok else st.fork(), f, tuple(self.stack)))
        if ok: return [st]
        return st.sat_states(f)
    # ---------------------------------------------------------------- values
    def tyk(self, i): return self.ty[i]
    def havoc(self, st, tyix, nm="h"):
        """list of (st, value): an arbitrary value of the type"""
        t = self.ty[tyix]; k = t["k"]
        if k == "int": return [(st, I(self.fresh(st, nm, t["int"])))]
        if k == "bool":
            return [(st, B(("op", sym("b_" + nm))))]
        if k == "adt":
            if t["def"].endswith("marker::PhantomData"): return [(st, UNIT)]
            if t["adt"] == "enum":
                out = []
                for vi, v in enumerate(t["variants"]):
                    for s2, fs in self.havoc_fields(st.fork(), [f["t"] for f in v["f"]], nm): out.append((s2, ("e", vi, fs)))
                return out
            if t["adt"] == "struct" and not t["def"].startswith(("alloc::", "core::fmt", "std::")):
                return [(s, ("s", fs)) for s, fs in self.havoc_fields(st, [f["t"] for f in t["variants"][0]["f"]], nm)]
            return [(st, ("o", "x", sym(nm)))]
        if k == "tuple":
            return [(s, ("s", fs)) for s, fs in self.havoc_fields(st, t["f"], nm)]
        if k == "never": return []
        if k in ("closure", "fndef"): return [(st, ("fn", None))]
        return [(st, ("o", "x", sym(nm)))]
    def havoc_fields(self, st, ts, nm):
        cur = [(st, ())]
        for t in ts:
            cur = [(s2, fs + (v,)) for s, fs in cur for s2, v in self.havoc(s, t, nm)]
        return cur
    # ---------------------------------------------------------------- trees
    def get(self, v, path):
        for e in path:
            if v[0] == "undef": return UNDEF
            if isinstance(e, tuple):     # downcast
                if v[0] == "e":
                    if v[1] != e[1]: return UNDEF
                    continue
                if v[0] == "o": return ("o", "x", v[2])
                raise Unsupported("downcast of %r" % (v,))
            if v[0] == "s":
                if e >= len(v[1]): return UNDEF
                v = v[1][e]
            elif v[0] == "e": v = v[2][e] if e < len(v[2]) else UNDEF
            elif v[0] == "c": v = v[2][e]
            elif v[0] == "un": v = v[1]
            elif v[0] == "f":    # fields of a fat pointer wrapper
                return v
            elif v[0] in ("p", "r"): return v
            elif v[0] == "o": v = ("o", "fld", v, e)
            else: raise Unsupported("field %r of %r" % (e, v))
        return v
    def put(self, v, path, x):
        if not path: return x
        e = path[0]
        if isinstance(e, tuple):
            if v[0] == "e" and v[1] == e[1]: return self.putin(v, path[1:], x)
            if v[0] in ("undef", "e"):
                return self.putin(("e", e[1], ()), path[1:], x)
            raise Unsupported("downcast write")
        return self.putin(v, path, x)
    def putin(self, v, path, x):
        if not path: return x
        e = path[0]
        if isinstance(e, tuple): return self.put(v, path, x)
        if v[0] == "undef": v = ("s", ())
        if v[0] in ("s", "e", "c"):
            fs = list(v[1] if v[0] == "s" else v[2])
            while len(fs) <= e: fs.append(UNDEF)
            fs[e] = self.put(fs[e], path[1:], x)
            if v[0] == "s": return ("s", tuple(fs))
            return (v[0], v[1], tuple(fs))
        if v[0] == "un": return ("un", self.put(v[1], path[1:], x))
        if v[0] == "o":
            return ("o", "x", sym("upd"))
        raise Unsupported("write into %r" % (v[0],))
    # ---------------------------------------------------------------- places
    def place(self, fr, st, p):
        """-> list of (st, lvalue)"""
        cell = fr.base + p[0]
        cur = [(st, ("cell", cell, ()))]
        for e in p[1]:
            nxt = []
            for s, lv in cur:
                if e == "*":
                    for s2, v in self.read(s, lv):
                        nxt.append((s2, self.deref(v)))
                elif "f" in e: 
                    if lv[0] == "cell": nxt.append((s, ("cell", lv[1], lv[2] + (e["f"],))))
                    else: nxt.append((s, ("fld", lv, e["f"])))
                elif "v" in e:
                    if lv[0] == "cell": nxt.append((s, ("cell", lv[1], lv[2] + (("v", e["v"]),))))
                    else: nxt.append((s, ("fld", lv, ("v", e["v"]))))
                elif "i" in e:
                    iv = s.mem[fr.base + e["i"]]
                    if lv[0] == "slice" and iv[0] == "i": nxt.append((s, ("elem", lv[1], lv[2] + iv[1])))
                    elif lv[0] == "cell":
                        a = self.get(s.mem[lv[1]], lv[2])
                        if a[0] == "arr" : raise Unsupported("array index")
                        raise Unsupported("array index")
                    else: raise Unsupported("index")
                elif "ci" in e:
                    if lv[0] == "slice":
                        off = lv[2] + e["ci"] if not e["end"] else lv[2] + lv[3] - e["ci"]
                        nxt.append((s, ("elem", lv[1], off)))
                    else: raise Unsupported("constindex")
                elif "sub" in e:
                    if lv[0] == "slice":
                        hi = lv[3] - e["to"] if e["end"] else const(e["to"])
                        nxt.append((s, ("slice", lv[1], lv[2] + e["sub"], hi - e["sub"])))
                    else: raise Unsupported("subslice")
                else: raise Unsupported("projection %r" % (e,))
            cur = nxt
        return cur
    def deref(self, v):
        k = v[0]
        if k == "r": return ("cell", v[1], v[2])
        if k == "p": return ("elem", v[1], v[2])
        if k == "f": return ("slice", v[1], v[2], v[3])
        if k == "s" and len(v[1]) >= 1: return self.deref(v[1][0])      # Box/NonNull/Unique wrappers
        if k == "o": return ("opq", v)
        if k == "str": return ("opq", v)
        raise Unsupported("deref of %r" % (v,))
    def read(self, st, lv, move=False, sp="?", cp=True):
        k = lv[0]
        if k == "cell":
            if lv[1] not in st.mem: raise Unsupported("read of dead cell")
            return [(st, self.get(st.mem[lv[1]], lv[2]))]
        if k == "elem":
            return self.read_elem(st, lv[1], lv[2], sp)
        if k == "opq":
            return [(st, ("o", "x", sym("deref")))]
        if k == "fld":
            return [(st, ("o", "x", sym("fld")))]
        if k == "slice": raise Unsupported("read of whole slice")
        raise Unsupported("read %r" % (lv,))
    def read_elem(self, st, rid, off, sp="?"):
        out = []
        for s in self.access(st, rid, off, ONE, "read", sp):
            ri = self.ri[rid]
            t = self.ty[ri.elt] if ri.elt is not None else None
            for s2, tok in self.content_at(s, rid, off):
                if t is not None and t["k"] in ("int", "bool") and tok[0] == "o":
                    key = ("elt", tok[2], s2.norm(tok[3])) if tok[1] == "tok" else None
                    if key is None or key not in s2.memo:
                        h = self.havoc(s2, ri.elt, "elt")
                        if key is not None: s2.memo[key] = h[0][1]
                    else: h = [(s2, s2.memo[key])]
                    if self.on_value:
                        for s3, v in h: self.on_value(self, s3, rid, off, v)
                    out += h
                    continue
                out.append((s2, tok))
        return out
    def access(self, st, rid, off, n, kind, sp):
        """an unchecked (or proven) access to n elements of region rid at off"""
        reg = st.regs[rid]
        f = f_and(ge(off), ge(reg.len - off - n))
        if not (n.isconst() and n.cval() == 1): f = f_or(f_and(ge(off), ge(reg.len - off - n)))
        out = self.oblige(st, "access", f, "%s of element(s) [%r; %r) of %s inside its storage of length %r" % (kind, off, off + n, self.ri[rid].name, reg.len), sp)
        if kind in ("write", "swap", "copy-to", "mutref") and self.ri[rid].perm != "mut":
            out = [s2 for s in out for s2 in self.oblige(s, "perm", FALSE, "%s to elements of %s, which is only shared here" % (kind, self.ri[rid].name), sp)]
        if self.on_access:
            out = [s2 for s in out for s2 in self.on_access(self, s, rid, off, n, kind, sp)]
        return out
    def write(self, st, lv, v, sp="?"):
        k = lv[0]
        if k == "cell":
            st.mem[lv[1]] = self.put(st.mem.get(lv[1], UNDEF), lv[2], v)
            return [st]
        if k == "elem":
            out = []
            for s in self.access(st, lv[1], lv[2], ONE, "write", sp):
                out += self.store_tok(s, lv[1], lv[2], v)
            return out
        if k in ("opq",):
            return [st]
        if k == "fld": return [st]
        raise Unsupported("write %r" % (lv,))
    # ---------------------------------------------------------------- region contents
    def seg_bound(self, st, rid, x):
        """-> list of (st, index) with a segment boundary at x"""
        segs = st.regs[rid].segs
        x = st.norm(x)
        out = []
        cur = st
        for i, (lo, hi, src) in enumerate(segs):
            # here: x >= lo on cur
            if cur.entails_ge(lo - x): 
                out.append((cur, i)); return out
            below = cur.sat_states(("ge", hi - x - 1)) if not cur.norm(hi - x - 1).isconst() else ([cur] if cur.norm(hi - x - 1).cval() >= 0 else [])
            above = cur.sat_states(ge(x - hi)) 
            for s in below:
                if src[0] == "t" or s.entails_ge(lo - x):
                    s = s if s.entails_ge(lo - x) else s.assume(eq(lo - x))
                    out.append((s, i)); continue
                for s2 in s.sat_states(eq(x - lo)): out.append((s2, i))
                for s2 in s.sat_states(ge(x - lo - 1)):
                    r = s2.regs[rid]
                    sg = list(r.segs)
                    sg[i:i + 1] = [(lo, x, src), (x, hi, src)]
                    s2.regs[rid] = Reg(r.len, tuple(sg))
                    out.append((s2, i + 1))
            if not above: return out
            cur = above[0]
        out.append((cur, len(segs)))
        return out
    def content_at(self, st, rid, x):
        """-> list of (st, token) for element x"""
        out = []
        for s, i in self.seg_bound(st, rid, x):
            segs = s.regs[rid].segs
            # skip empty segments
            while i < len(segs):
                lo, hi, src = segs[i]
                if src[0] == "t" or s.entails_ge(hi - lo - 1): break
                em = s.sat_states(eq(hi - lo))
                if em:
                    nem = s.sat_states(ge(hi - lo - 1))
                    for s3 in nem: out.append((s3, self.tok(src, x, lo)))
                    s = em[0]; i += 1; continue
                break
            if i >= len(segs): continue
            lo, hi, src = segs[i]
            out.append((s, self.tok(src, x, lo)))
        return out
    def tok(self, src, x, lo):
        if src[0] == "t": return src[1]
        return ("o", "tok", src[1], x + src[2])
    def take(self, st, rid, lo, hi):
        """-> list of (st, segs of [lo,hi) relative to lo)"""
        out = []
        for s, i in self.seg_bound(st, rid, lo):
            for s2, j in self.seg_bound(s, rid, hi):
                # boundary i may have moved if the second split happened before it (it cannot: hi >= lo)
                segs = s2.regs[rid].segs
                r = []
                acc = [(a - lo, b - lo, self.rebase(src, lo)) for a, b, src in segs[i:j]]
                out.append((s2, tuple(acc), i, j))
        return out
    def rebase(self, src, lo):
        if src[0] == "t": return src
        return ("v", src[1], src[2] + lo)
    def paste(self, st, rid, lo, hi, segs):
        """replace [lo,hi) by segs (relative)"""
        out = []
        for s, i in self.seg_bound(st, rid, lo):
            for s2, j in self.seg_bound(s, rid, hi):
                r = s2.regs[rid]
                new = [(a + lo, b + lo, self.rebase(src, -lo)) for a, b, src in segs]
                s2.regs[rid] = Reg(r.len, r.segs[:i] + tuple(new) + r.segs[j:])
                out.append(s2)
        return out
    def store_tok(self, st, rid, off, v):
        out = self.paste(st, rid, off, off + 1, ((ZERO, ONE, ("t", v)),))
        if self.on_store: out = [s2 for s in out for s2 in self.on_store(self, s, rid, off, v)]
        return out
    # ---------------------------------------------------------------- operands
    def operand(self, fr, st, o, sp="?"):
        if "copy" in o or "move" in o:
            mv = "move" in o
            p = o["move"] if mv else o["copy"]
            out = []
            for s, lv in self.place(fr, st, p):
                for s2, v in self.read(s, lv, mv, sp):
                    if mv and lv[0] == "cell":
                        if self.owns(v): 
                            if s2 is s and s is st: s2 = s2.fork() if False else s2
                            s2.mem[lv[1]] = self.put(s2.mem[lv[1]], lv[2], UNDEF) if lv[2] else UNDEF
                    out.append((s2, v))
            return out
        if "const" in o: return self.konst(st, o["const"])
        if "rtcheck" in o: return [(st, B(FALSE))]
        raise Unsupported("operand %r" % (o,))
    def owns(self, v):
        return v[0] == "o" and v[1] == "tok"
    def konst(self, st, c):
        t = self.ty[c["ty"]]
        if "fn" in c: return [(st, ("fn", Item(c["fn"])))]
        if "val" in c:
            if t["k"] == "bool": return [(st, B(TRUE if c["val"] else FALSE))]
            if t["k"] == "int": return [(st, I(c["val"]))]
            return [(st, ("o", "char", c["val"]))]
        if "tree" in c:
            v = self.ctree(c["tree"])
            if v is not None: return [(st, v)]
        if "zst" in c:
            if t["k"] == "closure": return [(st, ("c", t["def"], ()))]
            if t["k"] == "adt" and t["adt"] == "struct":
                fs = tuple(UNIT for _ in t["variants"][0]["f"])
                return [(st, ("s", fs))]
            return [(st, UNIT)]
        if "promoted" in c and c["promoted"] in self.bodies:
            b = self.bodies[c["promoted"]]
            out = []
            for kind, s, v in self.run_body(c["promoted"], b, st, [], keep=True):
                if kind == "ret": out.append((s, v))
            return out
        if t["k"] in ("ref", "ptr"): return [(st, ("str", c.get("sym", "?")))]
        if "scalar" in c and t["k"] == "adt" and t["adt"] == "struct" and len([f for f in t["variants"][0]["f"]]) == 1:
            ft = self.ty[t["variants"][0]["f"][0]["t"]]
            if ft["k"] == "int": return [(st, ("s", (I(c["scalar"]),)))]
        if "scalar" in c and t["k"] == "adt" and t["adt"] == "enum":
            for vi, v in enumerate(t["variants"]):
                if not v["f"] and v["d"] is not None and v["d"] % 256 == c["scalar"] % 256: return [(st, ("e", vi, ()))]
        st.approx = st.approx | {"constant " + str(c.get("sym"))}
        return self.havoc(st, c["ty"], "const")
    def ctree(self, c):
        t = self.ty[c["ty"]]
        if "val" in c:
            if t["k"] == "bool": return B(TRUE if c["val"] else FALSE)
            if t["k"] == "int": return I(c["val"])
            return ("o", "char", c["val"])
        fs = tuple(self.ctree(x) for x in c["f"])
        if t["k"] == "adt" and t["adt"] == "enum": return ("e", c["vi"], fs)
        return ("s", fs)
    # ---------------------------------------------------------------- integers
    def as_int(self, v):
        if v[0] == "i": return v[1]
        raise Unsupported("int expected, got %r" % (v,))
    def wrap(self, st, p, t, sp=None, widths=2):
        """reduce the exact integer p into the range of type t (two's complement): list of (st, P)"""
        lo, hi = irange(t)
        m = hi - lo + 1
        p = st.norm(p)
        if st.entails_ge(p - lo) and st.entails_ge(const(hi) - p): return [(st, p)]
        out = []
        inr = st.sat_states(f_and(ge(p - lo), ge(const(hi) - p)))
        out += [(s, p) for s in inr]
        if self.nowrap == lo: return out        # the property speaks about values that fit
        for s in st.sat_states(f_and(ge(p - hi - 1), ge(const(hi + m) - p))): out.append((s, p - m))
        for s in st.sat_states(f_and(ge(const(lo - 1) - p), ge(p - lo + m))): out.append((s, p + m))
        for f in (ge(p - hi - m - 1), ge(const(lo - m - 1) - p)):
            for s in st.sat_states(f):
                k = var(sym("wraps")); r = p - k * m
                s.add_ge(r - lo); s.add_ge(const(hi) - r)
                if not s.dead: out.append((s, r))
        return out
    def divmod_(self, st, a, b, nm="div"):
        """Euclidean for a >= 0, b >= 1: list of (st, q, r)"""
        a = st.norm(a); b = st.norm(b)
        if b.isconst() and a.isconst() and b.cval() > 0: return [(st, const(a.cval() // b.cval()), const(a.cval() % b.cval()))]
        if b.isconst() and b.cval() == 1: return [(st, a, ZERO)]
        # exact polynomial division by a monomial
        q = self.exact(a, b)
        if q is not None: return [(st, q, ZERO)]
        key = ("div", a, b)
        if key in st.memo: q, r = st.memo[key]; return [(st, q, r)]
        q = var(sym("q")); r = var(sym("r"))
        if b.isconst():
            # r eliminated: r = a - b*q
            r = a - q * b
            st.add_ge(q); st.add_ge(r); st.add_ge(b - 1 - r)
        else:
            st.add_ge(q); st.add_ge(r); st.add_ge(b - 1 - r)
            st.add_eq(a - q * b - r)
            st.add_ge(a - q); st.add_ge(a - r)
        st.memo[key] = (q, r)
        return [(st, q, r)]
    def exact(self, a, b):
        if len(b.d) != 1: return None
        (m, c), = b.d.items()
        d = {}
        for mm, cc in a.d.items():
            if cc % c: return None
            l = list(mm)
            for x in m:
                if x in l: l.remove(x)
                else: return None
            d[tuple(l)] = cc // c
        return P(d)
    def cmpf(self, op, d):
        if op in ("Eq",): return eq(d)
        if op == "Ne": return ne(d)
        if op == "Lt": return ge(-d - 1)
        if op == "Le": return ge(-d)
        if op == "Gt": return ge(d - 1)
        if op == "Ge": return ge(d)
    def ptrdiff(self, st, a, b):
        """address difference of two pointers as polynomial (bytes), or None"""
        if a[0] in ("p", "f") and b[0] in ("p", "f"):
            if a[1] == b[1]: return (a[2] - b[2]) * self.ri[a[1]].size
            return self.addr(a) - self.addr(b)
        return None
    def addr(self, v):
        if v[0] in ("p", "f"):
            r = self.ri[v[1]]
            return r.addr + v[2] * r.size
        if v[0] == "i": return v[1]
        return None
    def binop(self, st, op, a, b, tyix, sp):
        t = self.ty[tyix]; k = t["k"]
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") :
            if k == "bool" or (a[0] == "b" and b[0] == "b"):
                x, y = a[1], b[1]
                f = {"Eq": S.iff(x, y), "Ne": f_not(S.iff(x, y)), "Lt": f_and(f_not(x), y), "Le": f_or(f_not(x), y), "Gt": f_and(x, f_not(y)), "Ge": f_or(x, f_not(y))}[base]
                return [(st, B(f))]
            if a[0] == "i" and b[0] == "i": return [(st, B(self.cmpf(base, st.norm(a[1] - b[1]))))]
            d = self.ptrdiff(st, a, b)
            if d is not None:
                if a[0] == "f" and base in ("Eq", "Ne"):
                    f = f_and(eq(d), eq(a[3] - b[3]))
                    return [(st, B(f if base == "Eq" else f_not(f)))]
                return [(st, B(self.cmpf(base, st.norm(d))))]
            if a[0] == "r" and b[0] == "r" and base in ("Eq", "Ne"):
                same = a[1:3] == b[1:3]
                return [(st, B(TRUE if same == (base == "Eq") else FALSE))]
            return [(st, B(("op", sym("cmp"))))]
        if op == "Cmp":
            d = st.norm(self.as_int(a) - self.as_int(b))
            out = []
            for f, v in ((ge(-d - 1), 0), (eq(d), 1), (ge(d - 1), 2)):
                for s in st.sat_states(f): out.append((s, ("e", v, ())))
            return out
        if op == "Offset":
            return self.ptr_offset(st, a, self.as_int(b), sp)
        if k == "bool":
            x, y = a[1], b[1]
            f = {"BitAnd": f_and(x, y), "BitOr": f_or(x, y), "BitXor": f_not(S.iff(x, y))}.get(op)
            if f is None: raise Unsupported("bool op " + op)
            return [(st, B(f))]
        if k != "int": raise Unsupported("binop %s on %s" % (op, t["name"]))
        it = t["int"]
        if a[0] != "i" or b[0] != "i":
            # integers derived from addresses of locals etc.
            return [(s, v if not op.endswith("WithOverflow") else ("s", (v, B(("op", sym("ovf")))))) for s, v in [(st, I(self.fresh(st, "x", it)))]]
        x, y = st.norm(a[1]), st.norm(b[1])
        if base in ("Add", "Sub", "Mul"):
            p = x + y if base == "Add" else x - y if base == "Sub" else x * y
            if op.endswith("WithOverflow"):
                lo, hi = irange(it)
                ov = f_not(f_and(ge(p - lo), ge(const(hi) - p)))
                if base == "Sub" and lo == 0: ov = f_not(ge(p))
                if st.entails(f_not(ov)): return [(st, ("s", (I(p), B(FALSE))))]
                out = [(s, ("s", (I(p), B(FALSE)))) for s in st.sat_states(f_not(ov))]
                for s in st.sat_states(ov):
                    for s2, q in self.wrap(s, p, it): out.append((s2, ("s", (I(q), B(TRUE)))))
                return out
            if op.endswith("Unchecked"):
                lo, hi = irange(it)
                return [(s, I(p)) for s in self.oblige(st, "ub", f_and(ge(p - lo), ge(const(hi) - p)), "unchecked %s does not overflow" % base, sp)]
            if base == "Sub" and not INTS[it][1]:
                # both operands are in range, so the difference wraps exactly when it is negative
                m = 1 << INTS[it][0]
                return [(s, I(s.norm(p))) for s in st.sat_states(ge(p))] + [(s, I(s.norm(p + m))) for s in st.sat_states(f_not(ge(p)))]
            return [(s, I(q)) for s, q in self.wrap(st, p, it)]
        if base in ("Div", "Rem"):
            lo, hi = irange(it)
            if lo < 0:
                if not (st.entails_ge(x) and st.entails_ge(y - 1)):
                    out = []
                    for s in st.sat_states(f_and(ge(x), ge(y - 1))):
                        out += [(s2, I(q if base == "Div" else r)) for s2, q, r in self.divmod_(s, x, y)]
                    for s in st.sat_states(f_not(f_and(ge(x), ge(y - 1)))):
                        s.approx = s.approx | {"signed division"}
                        out.append((s, I(self.fresh(s, "sdiv", it))))
                    return out
            out = []
            for s in st.sat_states(ge(y - 1)):
                out += [(s2, I(q if base == "Div" else r)) for s2, q, r in self.divmod_(s, x, y)]
            return out
        if base in ("Shl", "Shr") and y.isconst():
            n = 1 << (y.cval() % INTS[it][0])
            if base == "Shr" and st.entails_ge(x): return [(s, I(q)) for s, q, r in self.divmod_(st, x, const(n))]
            if base == "Shl": return [(s, I(q)) for s, q in self.wrap(st, x * n, it)]
        if op == "BitAnd" and (y.isconst() or x.isconst()) and st.entails_ge(x) and st.entails_ge(y):
            if x.isconst(): x, y = y, x
            m = y.cval() + 1
            if m & (m - 1) == 0: return [(s, I(r)) for s, q, r in self.divmod_(st, x, const(m))]
        if base in ("Shl", "Shr") or op in ("BitAnd", "BitOr", "BitXor"):
            cy = self.cases(st, y)
            if cy is not None and base in ("Shl", "Shr"):
                out = []
                for s, k in cy:
                    if k is None:
                        s.approx = s.approx | {"integer operation " + op}; out.append((s, I(self.fresh(s, op.lower(), it))))
                    else: out += self.binop(s, op, I(s.norm(x)), I(const(k)), tyix, sp)
                return out
            cx = self.cases(st, x) if cy is not None else None
            if cx is not None:
                out = []
                f = {"BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b}[op]
                for s, k in cx:
                    for s2, l in self.cases(s, s.norm(y)) or ():
                        if k is not None and l is not None and k >= 0 and l >= 0: out.append((s2, I(const(f(k, l)))))
                        else: s2.approx = s2.approx | {"integer operation " + op}; out.append((s2, I(self.fresh(s2, op.lower(), it))))
                return out
        st.approx = st.approx | {"integer operation " + op}
        v = self.fresh(st, op.lower(), it)
        if op == "BitAnd" and st.entails_ge(x) and st.entails_ge(y): st.add_ge(x - v); st.add_ge(y - v)
        return [(st, I(v))]
    def cases(self, st, p):
        """partition by the value of p when it depends on element sizes only: [(state, value or None for the rest)], or None"""
        p = st.norm(p)
        if p.isconst(): return [(st, p.cval())]
        sizes = set(self.sizes.values()) | set(y for r in self.ri.values() for y in r.size.syms())
        ss = list(p.syms())
        if not ss or not set(ss) <= sizes: return None
        v = var(ss[0]); out = []
        for k in range(1, 9):
            s = st.fork(); s.add_eq(v - k)
            if not s.dead: out += self.cases(s, s.norm(p)) or ()
        s = st.fork(); s.add_ge(v - 9)
        if not s.dead: out.append((s, None))
        return out
    def ptr_offset(self, st, p, n, sp, tag="ptrarith", scale=1):
        if p[0] == "f": p = ("p", p[1], p[2])
        if p[0] == "p":
            off = p[2] + n
            reg = st.regs[p[1]]
            out = self.oblige(st, tag, f_and(ge(off), ge(reg.len - off)), "pointer arithmetic stays inside %s: offset %r, length %r" % (self.ri[p[1]].name, st.norm(off), reg.len), sp) if tag else [st]
            return [(s, ("p", p[1], s.norm(off))) for s in out]
        if p[0] == "r" and n.isconst() and n.cval() == 0: return [(st, p)]
        raise Unsupported("pointer arithmetic on %r" % (p[0],))
    def int_cast(self, st, p, frm, to):
        return self.wrap(st, p, to)
    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, sp):
        k = r["k"]
        if k == "use": return self.operand(fr, st, r["a"], sp)
        if k in ("ref", "rawptr"):
            out = []
            for s, lv in self.place(fr, st, r["p"]):
                if lv[0] == "cell":
                    v = self.get(s.mem[lv[1]], lv[2]) if lv[1] in s.mem else UNDEF
                    out.append((s, ("r", lv[1], lv[2])))
                elif lv[0] == "elem":
                    if k == "ref":
                        for s2 in self.access(s, lv[1], lv[2], ONE, "mutref" if r["mut"] else "ref", sp): out.append((s2, ("p", lv[1], lv[2])))
                    else: out.append((s, ("p", lv[1], lv[2])))
                elif lv[0] == "slice":
                    if k == "ref":
                        for s2 in self.access(s, lv[1], lv[2], lv[3], "mutref" if r["mut"] else "ref", sp): out.append((s2, ("f", lv[1], lv[2], lv[3])))
                    else: out.append((s, ("f", lv[1], lv[2], lv[3])))
                elif lv[0] == "opq": out.append((s, lv[1]))
                elif lv[0] == "fld": out.append((s, ("o", "x", sym("fldref"))))
                else: raise Unsupported("ref of %r" % (lv,))
            return out
        if k == "bin":
            out = []
            for s, a in self.operand(fr, st, r["a"], sp):
                for s2, b in self.operand(fr, s, r["b"], sp):
                    out += self.binop(s2, r["op"], a, b, r["t"], sp)
            return out
        if k == "un":
            out = []
            for s, a in self.operand(fr, st, r["a"], sp):
                if r["op"] == "Not" and a[0] == "b": out.append((s, B(f_not(a[1]))))
                elif r["op"] == "Not" and a[0] == "i":
                    it = self.ty[r["t"]]["int"]; lo, hi = irange(it)
                    out.append((s, I(const(hi) - a[1] if lo == 0 else -a[1] - 1)))
                elif r["op"] == "Neg" and a[0] == "i":
                    out += [(s2, I(q)) for s2, q in self.wrap(s, -a[1], self.ty[r["t"]]["int"])]
                elif r["op"] == "PtrMetadata":
                    if a[0] == "f": out.append((s, I(a[3])))
                    else: out.append((s, UNIT) if a[0] in ("p", "r") else (s, I(self.fresh(s, "meta"))))
                else: raise Unsupported("unop %s" % r["op"])
            return out
        if k == "discr":
            out = []
            for s, lv in self.place(fr, st, r["p"]):
                for s2, v in self.read(s, lv):
                    t = self.ty[r["t"]]
                    if v[0] == "e" and t["k"] == "adt": out.append((s2, I(t["variants"][v[1]]["d"])))
                    elif v[0] == "o" and t["k"] == "adt" and t["adt"] == "enum" and lv[0] == "cell":
                        for s3, x in self.havoc(s2, r["t"], "enum"):
                            for s4 in self.write(s3, lv, x): out.append((s4, I(t["variants"][x[1]]["d"])))
                    elif v[0] == "undef" and t["k"] == "adt" and t["adt"] == "enum" and len([w for w in t["variants"] if not self.empty_variant(w)]) == 1:
                        # the optimised library bodies read the discriminant of a type with a single inhabited variant without writing it
                        out.append((s2, I([w for w in t["variants"] if not self.empty_variant(w)][0]["d"])))
                    else: raise Unsupported("discriminant of %r" % (v,))
            return out
        if k == "cast":
            out = []
            for s, a in self.operand(fr, st, r["a"], sp): out += self.cast(s, r["ck"], a, r["from"], r["t"], sp)
            return out
        if k == "agg":
            cur = [(st, ())]
            for o in r["a"]:
                cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.operand(fr, s, o, sp)]
            ak = r["ak"]
            if ak in ("tuple", "struct"): return [(s, ("s", vs)) for s, vs in cur]
            if ak == "enum": return [(s, ("e", r["v"], vs)) for s, vs in cur]
            if ak == "closure": return [(s, ("c", r["def"], vs)) for s, vs in cur]
            if ak == "union": return [(s, ("un", vs[0] if vs else UNDEF)) for s, vs in cur]
            if ak == "rawptr":
                out = []
                for s, vs in cur:
                    p, n = vs
                    if p[0] == "f": p = ("p", p[1], p[2])
                    if p[0] == "p" and n[0] == "i": out.append((s, ("f", p[1], p[2], n[1])))
                    elif n == UNIT: out.append((s, p))
                    else: raise Unsupported("raw fat pointer of %r" % (p,))
                return out
            if ak == "array": return [(s, ("s", vs)) for s, vs in cur]
            raise Unsupported("aggregate " + ak)
        if k == "repeat":
            return [(st, ("o", "x", sym("array")))]
        raise Unsupported("rvalue %s %s" % (k, r.get("dbg", "")))
    def cast(self, st, ck, v, frm, to, sp):
        tt = self.ty[to]; ft = self.ty[frm]
        if ck.startswith("IntToInt"):
            if v[0] == "b":
                return [(s, I(1 if t else 0)) for t, s in st.branch(v[1])]
            if v[0] == "i" and tt["k"] == "int": return [(s, I(q)) for s, q in self.wrap(st, v[1], tt["int"])]
            if v[0] == "o" and tt["k"] == "int": return [(st, I(self.fresh(st, "cast", tt["int"])))]
            return [(st, ("o", "x", sym("cast")))]
        if ck.startswith(("PtrToPtr", "FnPtrToPtr")) or ck.startswith("PointerCoercion(MutToConst"):
            dst = self.ty[tt["to"]] if tt["k"] in ("ptr", "ref") else None
            if v[0] == "f" and dst is not None and dst["k"] not in ("slice",): v = ("p", v[1], v[2])
            if v[0] == "p" and dst is not None:
                src = self.ty[ft["to"]] if ft["k"] in ("ptr", "ref") else None
                if src is not None and src["name"] != dst["name"] and not (src["k"] == "slice" and self.ty[src["to"]]["name"] == dst["name"]) and src["k"] != "array":
                    if not (dst["name"] in ("()",) or src["name"] in ("()",)):
                        # reinterpretation of the element type: only the address stays meaningful
                        if dst["k"] != "adt" and not (dst["k"] == "alias" or src["k"] == "alias"):
                            a = self.addr(v)
                            return [(st, ("raw", a, v))]
            if v[0] == "raw": 
                src = v[2]
                return [(st, src)]
            return [(st, v)]
        if "Provenance" in ck or ck.startswith(("PointerExpose", "PointerWithExposed")):
            if ck.startswith("PointerExpose"):
                if v[0] == "raw": return [(st, I(v[1]))]
                a = self.addr(v)
                if a is None: return [(st, I(self.fresh(st, "addr")))]
                return [(st, I(a))]
            # integer to pointer
            if v[0] == "i":
                for rid, ri in self.ri.items():
                    if rid in st.regs:
                        d = self.exact(st.norm(v[1]) - st.norm(ri.addr), st.norm(ri.size))
                        if d is not None: return [(st, ("p", rid, d))]
            raise Unsupported("int to pointer")
        if ck.startswith("Transmute"):
            return self.transmute(st, v, frm, to)
        if "Unsize" in ck:
            if v[0] == "r":
                a = self.get(st.mem[v[1]], v[2]) if v[1] in st.mem else None
            return [(st, ("o", "x", sym("unsize")))]
        if ck.startswith("PointerCoercion"): return [(st, v)]
        if ck.startswith("FloatTo") or ck.startswith("IntToFloat"): return self.havoc(st, to, "float")
        raise Unsupported("cast " + ck)
    def empty_variant(self, w):
        return any(self.uninhabited(f["t"]) for f in w["f"])
    def uninhabited(self, t):
        t = self.ty[t]
        return t["k"] == "never" or t["k"] == "adt" and t["adt"] == "enum" and all(self.empty_variant(w) for w in t["variants"])
    def transmute(self, st, v, frm, to):
        tt = self.ty[to]; ft = self.ty[frm]
        if tt["k"] == ft["k"]:
            if tt["k"] == "adt" and tt["def"] == ft["def"]: return [(st, v)]
            if tt["k"] in ("ref", "ptr"): return [(st, v)]
            if tt["k"] == "int":
                if v[0] == "i": return [(s, I(q)) for s, q in self.wrap(st, v[1], tt["int"])]
        if ft["k"] in ("ref", "ptr") and tt["k"] in ("ref", "ptr"): return [(st, v)]
        if ft["k"] in ("ref", "ptr") and tt["k"] == "int": 
            a = self.addr(v)
            if a is not None: return [(st, I(a))]
        if tt["k"] == "adt" and v[0] in ("p", "f", "r"):   # NonNull<T> etc.
            return [(st, v)]
        if ft["k"] == "adt" and v[0] in ("p", "f", "r"): return [(st, v)]
        if v[0] == "s" and ft["k"] == tt["k"] == "adt" and len(ft["variants"][0]["f"]) == len(tt["variants"][0]["f"]): return [(st, v)]
        if v[0] == "s" and len(v[1]) == 1 : return self.transmute(st, v[1][0], ft["variants"][0]["f"][0]["t"] if ft["k"] == "adt" else frm, to)
        raise Unsupported("transmute %s -> %s" % (ft["name"], tt["name"]))
    # ---------------------------------------------------------------- running
    def binfo(self, key, b):
        i = self.info.get(key)
        if i is None: i = self.info[key] = BodyInfo(b)
        return i
    def run_body(self, key, b, st, args, keep=False):
        """-> list of ('ret', st, value) | ('panic', st, info) | ('unwind', st, None)"""
        if len(self.stack) > 60: raise Unsupported("inline depth")
        fr = Frame()
        fr.body = b; fr.key = key; fr.info = self.binfo(key, b); fr.depth = len(self.stack)
        fr.base = self.cell + 1
        n = len(b["locals"])
        self.cell += n
        for i in range(n): st.mem[fr.base + i] = UNDEF
        if b.get("spread") is not None and b["spread"] is not None:
            raise Unsupported("spread args")
        for i, a in enumerate(args): st.mem[fr.base + 1 + i] = a
        self.stack.append((key, b["sp"]))
        if b["local"]: self.visited.add(key)
        try:
            ex = self.region(fr, 0, st, None)
        finally:
            self.stack.pop()
        out = []
        for e in ex:
            k, bb, s = e[0], e[1], e[2]
            v = None
            if k == "ret": v = s.mem.get(fr.base, UNDEF)
            if not keep:
                for i in range(n): s.mem.pop(fr.base + i, None)
            if k == "ret": out.append(("ret", s, v))
            elif k == "panic": out.append(("panic", s, bb))
            elif k == "unwind": out.append(("unwind", s, bb))
            else: raise AssertionError(k)
        return out
    def region(self, fr, start, st, loop):
        work = [(start, st, True)]
        exits = []
        blocks = fr.body["blocks"]
        while work:
            bb, s, first = work.pop()
            if s.dead: continue
            if loop is not None:
                if not first and bb == loop.header: exits.append(("back", bb, s)); continue
                if bb not in loop.body and not blocks[bb]["c"]: exits.append(("exit", bb, s)); continue
            if bb in fr.info.loops and not (loop is not None and bb == loop.header) :
                L = Loop(); L.header = bb; L.body = fr.info.loops[bb]; L.id = (fr.key, bb)
                for e in self.loop(fr, L, s):
                    if e[0] == "exit": work.append((e[1], e[2], False))
                    else: exits.append(e)
                continue
            self.steps += 1
            if self.steps > self.budget: raise Budget("step budget")
            try:
                res = self.block(fr, blocks[bb], s)
            except Unsupported as e:
                if self.debug: print("UNSUPPORTED", e, blocks[bb]["t"].get("sp"), [k for k, _ in self.stack])
                raise
            for r in res:
                if r[0] == "goto": work.append((r[1], r[2], False))
                else: exits.append(r)
        return exits
    def block(self, fr, bl, st):
        cur = [st]
        for x in bl["s"]:
            k = x["k"]
            nxt = []
            if k == "=":
                for s in cur:
                    for s2, v in self.rvalue(fr, s, x["r"], x["sp"]):
                        if s2.dead: continue
                        if not x["p"][1]:
                            s2.mem[fr.base + x["p"][0]] = v; nxt.append(s2)
                        else:
                            for s3, lv in self.place(fr, s2, x["p"]): nxt += self.write(s3, lv, v, x["sp"])
            elif k == "dead":
                for s in cur: s.mem[fr.base + x["l"]] = UNDEF
                nxt = cur
            elif k == "setd":
                for s in cur:
                    for s2, lv in self.place(fr, s, x["p"]):
                        v = self.read(s2, lv)[0][1]
                        nv = ("e", x["v"], v[2] if v[0] == "e" and v[1] == x["v"] else ())
                        nxt += self.write(s2, lv, nv)
            elif k == "assume":
                for s in cur:
                    for s2, v in self.operand(fr, s, x["a"]):
                        nxt += self.oblige(s2, "ub", v[1], "assumed condition holds", x["sp"])
            elif k == "copynov":
                for s in cur:
                    for s2, a in self.operand(fr, s, x["src"]):
                        for s3, b in self.operand(fr, s2, x["dst"]):
                            for s4, n in self.operand(fr, s3, x["n"]):
                                nxt += self.copy_elems(s4, a, b, n[1], True, x["sp"])
            else: nxt = cur
            cur = nxt
            if not cur: return []
            if len(cur) > 1:
                # continue each separately
                rest = {"s": bl["s"][bl["s"].index(x) + 1:], "t": bl["t"], "c": bl["c"]}
                out = []
                for s in cur: out += self.block(fr, rest, s)
                return out
        out = []
        for s in cur: out += self.term(fr, bl["t"], s, bl["c"])
        return out
    def note(self, st, sp, txt):
        st.trace = (st.trace + ((sp, txt),))[-40:]
    def term(self, fr, t, st, cleanup):
        k = t["k"]; sp = t["sp"]
        if k == "goto": return [("goto", t["t"], st)]
        if k == "return": return [("ret", None, st)]
        if k == "resume": return [("unwind", None, st)]
        if k == "unreachable":
            if not self.mute: self.obl.append(("ub", "unreachable code is not reached", sp, "fail", st.fork(), FALSE, tuple(self.stack))) if not st.infeasible() else None
            return []
        if k == "abort": return [("panic", "abort", st)]
        if k == "switch":
            out = []
            ty = self.ty[t["ty"]]
            for s, v in self.operand(fr, st, t["a"], sp):
                if v[0] == "b":
                    tgt = {x: b for x, b in t["v"]}
                    for val, s2 in s.branch(v[1]):
                        if s2.guards is not None and v[1][0] in ("ge", "eq", "ne"): s2.guards.add(v[1])
                        if v[1][0] not in ("T", "F"): self.note(s2, sp, S.fshow(v[1] if val else f_not(v[1])))
                        out.append(("goto", tgt.get(1 if val else 0, t["o"]), s2))
                    continue
                if v[0] == "o" and v[1] == "char": raise Unsupported("char switch")
                p = s.norm(self.as_int(v))
                bits, sg = INTS[ty["int"]] if ty["k"] == "int" else (64, False)
                if sg and p.isconst() and p.cval() >= 1 << (bits - 1): p = p - (1 << bits)
                rest = [s]
                for val, b in t["v"]:
                    if sg and val >= 1 << (bits - 1): val -= 1 << bits
                    nr = []
                    for s2 in rest:
                        e = eq(p - val)
                        if s2.guards is not None and e[0] == "eq": s2.guards.add(e)
                        for s3 in s2.sat_states(e):
                            if e[0] == "eq": self.note(s3, sp, S.fshow(e))
                            out.append(("goto", b, s3 if s3 is not s2 else s3))
                        for s3 in s2.sat_states(f_not(e)):
                            if e[0] == "eq": self.note(s3, sp, S.fshow(f_not(e)))
                            nr.append(s3)
                    rest = nr
                for s2 in rest: out.append(("goto", t["o"], s2))
            return out
        if k == "assert":
            out = []
            for s, v in self.operand(fr, st, t["a"], sp):
                f = v[1] if t["exp"] else f_not(v[1])
                for s2 in s.sat_states(f_not(f)):
                    self.note(s2, sp, "assert fails: " + t["msg"])
                    out.append(("panic", (t["msg"], sp, tuple(self.stack)), s2))
                for s2 in s.sat_states(f): out.append(("goto", t["t"], s2))
            return out
        if k == "drop":
            out = []
            if t["nd"]:
                for s, lv in self.place(fr, st, t["p"]):
                    for s2 in self.drop(fr, s, lv, t, sp): out.append(("goto", t["t"], s2))
                return out
            return [("goto", t["t"], st)]
        if k == "call": return self.call_term(fr, t, st, cleanup)
        raise Unsupported("terminator " + k + t.get("dbg", ""))
    def drop(self, fr, st, lv, t, sp):
        if t.get("glue"):
            if t["glue"] in self.bodies and lv[0] == "cell":
                out = []
                for kk, s, v in self.run_body(t["glue"], self.bodies[t["glue"]], st, [("r", lv[1], lv[2])]):
                    if kk == "ret": out.append(s)
                return out
            st.taint = st.taint | {"drop glue"}
        if lv[0] == "cell":
            v = self.get(st.mem.get(lv[1], UNDEF), lv[2])
            toks = []
            def walk(v):
                if v[0] == "o" and v[1] in ("tok", "arg"): toks.append(v)
                elif v[0] in ("s",):
                    for x in v[1]: walk(x)
                elif v[0] in ("e",):
                    for x in v[2]: walk(x)
            walk(v)
            if toks: st.drops = st.drops + tuple(toks)
        elif lv[0] == "elem":
            out = []
            for s, tok in self.content_at(st, lv[1], lv[2]):
                s.drops = s.drops + (tok,)
                out.append(s)
            return out
        return [st]
    # ---------------------------------------------------------------- calls
    def call_term(self, fr, t, st, cleanup):
        sp = t["sp"]
        cur = [(st, [])]
        for a in t["a"]:
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in self.operand(fr, s, a, sp)]
        out = []
        for s, vs in cur:
            for s1, fv in self.operand(fr, s, t["f"], sp):
                if fv[0] != "fn" or fv[1] is None: raise Unsupported("indirect call")
                for r in self.call(fr, s1, fv[1], vs, t, sp):
                    kind, s2, v = r
                    if s2.dead: continue
                    if kind == "ret":
                        if t["t"] is None: continue
                        if not t["d"][1]:
                            s2.mem[fr.base + t["d"][0]] = v
                            out.append(("goto", t["t"], s2))
                        else:
                            for s3, lv in self.place(fr, s2, t["d"]):
                                for s4 in self.write(s3, lv, v, sp): out.append(("goto", t["t"], s4))
                    elif kind == "panic": out.append(("panic", v, s2))
                    elif kind == "unwind":
                        if isinstance(t.get("u"), int): out.append(("goto", t["u"], s2))
                        else: out.append(("unwind", v, s2))
        return out
    def call(self, fr, st, c, args, t, sp):
        """c: callee json. -> list of (kind, st, value)"""
        if "closure" in c: return self.call_closure(st, c["closure"], args, c, sp)
        if "fnitem" in c:
            tup = args[1] if len(args) > 1 else UNIT
            return self.call(fr, st, c["fnitem"], list(tup[1]), t, sp)
        h = self.lookup_model(c)
        if h is not None:
            r = h(self, st, c, args, t, sp)
            if r is not None: return r
        if c.get("ctor"):
            tt = self.ty[t["dt"]]
            if tt["k"] == "adt" and tt["adt"] == "enum":
                nm = c["rdef"].split("::")
                for vi, v in enumerate(tt["variants"]):
                    if v["n"] in nm[-2:]: return [("ret", st, ("e", vi, tuple(args)))]
            return [("ret", st, ("s", tuple(args)))]
        key = c.get("key")
        if key is not None and key in self.bodies:
            n = sum(1 for k, _ in self.stack if k == key)
            if n:
                if self.mode != "unroll": return self.recurse(st, key, c, args, t, sp)
                if n > self.unroll: self.truncated = True; return []
            return self.run_body(key, self.bodies[key], st, args)
        if c.get("dkey") in self.bodies:
            return self.run_body(c["dkey"], self.bodies[c["dkey"]], st, args)
        if c.get("kind") == "unresolved":
            r = self.user_call(st, c, args, t, sp)
            if r is not None: return r
        tt = self.ty[t["dt"]]
        if tt["k"] == "never" or t["t"] is None:
            self.note(st, sp, "panics: " + (c.get("rpath") or c["def"]))
            return [("panic", st, ("call " + (c.get("rpath") or c["def"]), sp, tuple(self.stack)))]
        return self.unknown_call(st, c, args, t, sp)
    def unknown_call(self, st, c, args, t, sp):
        st.taint = st.taint | {"call of %s" % (c.get("rpath") or c["def"])}
        if self.debug: print("UNKNOWN CALL", c.get("rpath") or c["def"], [k for k, _ in self.stack][-2:])
        return [("ret", s, v) for s, v in self.havoc(st, t["dt"], "unk")]
    def lookup_model(self, c):
        m = self.models
        if c.get("rdef", "").endswith(self.skip_suffix): return lambda e, st, c, args, t, sp: [("ret", st, UNIT)]
        for k in (c.get("rpath"), c.get("intrinsic") and "intrinsic:" + c["intrinsic"], c.get("trait") and c["trait"] + "#" + c["method"], c.get("def")):
            if k and k in m: return m[k]
        return None
    def call_closure(self, st, key, args, c, sp):
        if key not in self.bodies: raise Unsupported("closure body missing " + key)
        b = self.bodies[key]
        env = args[0]
        tup = args[1] if len(args) > 1 else UNIT
        envt = self.ty[b["locals"][1]]
        # FnOnce::call_once passes the closure by value, call/call_mut by reference
        tmp = None
        if envt["k"] == "ref" and env[0] == "c":
            tmp = self.newcell(st, env)
            env = ("r", tmp, ())
        elif envt["k"] == "closure" and env[0] == "r":
            env = self.get(st.mem[env[1]], env[2])
        a = [env] + list(tup[1] if tup[0] == "s" else [tup])
        a = a[:b["argc"]] if len(a) > b["argc"] else a
        out = self.run_body(key, b, st, a)
        return out
    def recurse(self, st, key, c, args, t, sp):
        """summary of a recursive call: slices passed by exclusive reference are permuted (the property being proved,
        by induction on the call depth); anything else is unknown"""
        out = [st]
        for a, at in zip(args, t["at"]):
            tt = self.ty[at]
            if a[0] == "f":
                if tt["k"] == "ref" and tt["mut"]:
                    nxt = []
                    for s in out:
                        for s1 in self.access(s, a[1], a[2], a[3], "mutref", sp):
                            nxt += self.permute(s1, a[1], a[2], a[3], key)
                    out = nxt
            elif a[0] in ("i", "b", "s"): pass
            else:
                for s in out: s.taint = s.taint | {"recursive call of " + key}
        for s in out:
            if "#rank" not in s.gh: s.approx = s.approx | {"recursion summary"}
        res = []
        for s in out:
            for s2, v in self.havoc(s, t["dt"], "rec"): res.append(("ret", s2, v))
            if self.unwind: res.append(("unwind", s.fork(), "recursion"))
        return res
    def permute(self, st, rid, off, n, key=None):
        out = []
        for r in self.take(st, rid, off, off + n):
            s, segs = r[0], r[1]
            w = self.newver("perm")
            tot = {}
            for lo, hi, src in segs: self.macc(s, tot, src, lo, hi, 1)
            s.acct[w] = (n, self.mnorm(s, tot))
            new = self.paste(s, rid, off, off + n, ((ZERO, n, ("v", w, ZERO)),))
            if self.ord:
                for s2 in new: self.ord.recursed(self, s2, key, rid, off, n, segs, None, w)
            out += new
        return out
    # ---- multiset accounting: formal sums of prefix sums S_ver(poly) and single tokens
    def macc(self, st, tot, src, lo, hi, c):
        if src[0] == "t": self.mtok(st, tot, src[1], c)
        else:
            self.madd(st, tot, ("S", src[1], st.norm(hi + src[2])), c)
            self.madd(st, tot, ("S", src[1], st.norm(lo + src[2])), -c)
    def mtok(self, st, tot, tok, c):
        if tok[0] == "o" and tok[1] == "tok":
            self.madd(st, tot, ("S", tok[2], st.norm(tok[3] + 1)), c)
            self.madd(st, tot, ("S", tok[2], st.norm(tok[3])), -c)
        else: self.madd(st, tot, ("T", tok), c)
    def madd(self, st, tot, k, c):
        if k[0] == "S" and not k[2].d: return
        n = tot.get(k, 0) + c
        if n: tot[k] = n
        else: tot.pop(k, None)
    def mnorm(self, st, tot):
        """rewrite with the totals of summarised versions, merge provably equal positions"""
        tot = {((k[0], k[1], st.norm(k[2])) if k[0] == "S" else k): 0 for k in ()} or self._renorm(st, tot)
        for _ in range(50):
            ch = False
            for k in sorted((k for k in tot if k[0] == "S" and k[1] in st.acct), key=lambda k: -k[1]):
                ln, base = st.acct[k[1]]
                if st.entails(eq(k[2] - ln)):
                    c = tot.pop(k)
                    for kk, cc in base.items(): self.madd(st, tot, (kk[0], kk[1], st.norm(kk[2])) if kk[0] == "S" else kk, c * cc)
                    ch = True; break
            if not ch: break
        ks = [k for k in tot if k[0] == "S"]
        for i, a in enumerate(ks):
            if a not in tot: continue
            if tot[a] and st.entails(eq(a[2])): tot.pop(a); continue
            for b in ks[i + 1:]:
                if b in tot and a in tot and a[1] == b[1] and tot[a] * tot[b] < 0 and st.entails(eq(a[2] - b[2])):
                    n = tot.pop(b) + tot[a]
                    if n: tot[a] = n
                    else: tot.pop(a)
        return tot
    def _renorm(self, st, tot):
        out = {}
        for k, c in tot.items(): self.madd(st, out, (k[0], k[1], st.norm(k[2])) if k[0] == "S" else k, c)
        return out
    def total(self, st, rids=None):
        tot = {}
        for rid in (rids if rids is not None else sorted(st.regs)):
            for lo, hi, src in st.regs[rid].segs: self.macc(st, tot, src, lo, hi, 1)
        return self.mnorm(st, tot)
    def total0(self, st, rids=None):
        tot = {}
        for rid in (rids if rids is not None else sorted(st.regs)):
            self.madd(st, tot, ("S", self.ri[rid].ver0, st.norm(st.gh["#len0"][rid])), 1)
        return self.mnorm(st, tot)
    def mdiff(self, st, a, b):
        d = dict(a)
        for k, c in b.items(): self.madd(st, d, k, -c)
        return self.mnorm(st, d)
    # ---- bulk element moves
    def copy_elems(self, st, src, dst, n, nov, sp):
        if src[0] == "f": src = ("p", src[1], src[2])
        if dst[0] == "f": dst = ("p", dst[1], dst[2])
        out = []
        n1 = st.norm(n)
        if src[0] == "p" and dst[0] == "p":
            for s in self.access(st, src[1], src[2], n, "copy-from", sp):
                for s2 in self.access(s, dst[1], dst[2], n, "copy-to", sp):
                    if nov and src[1] == dst[1]:
                        sts = self.oblige(s2, "access", f_or(ge(src[2] - dst[2] - n), ge(dst[2] - src[2] - n)), "copy_nonoverlapping ranges are disjoint", sp)
                    else: sts = [s2]
                    for s3 in sts:
                        for r in self.take(s3, src[1], src[2], src[2] + n):
                            out += self.paste(r[0], dst[1], dst[2], dst[2] + n, r[1])
            return out
        if n1.isconst() and n1.cval() == 1:
            for s, v in self.read(st, self.deref(src), sp=sp):
                out += self.write(s, self.deref(dst), v, sp)
            return out
        raise Unsupported("bulk copy between %r and %r" % (src[0], dst[0]))
    def swap_places(self, st, a, b, sp):
        la, lb = self.deref(a), self.deref(b)
        out = []
        for s, va in self.read(st, la, sp=sp):
            for s2, vb in self.read(s, lb, sp=sp):
                for s3 in self.write(s2, la, vb, sp): out += self.write(s3, lb, va, sp)
        return out
    # ---------------------------------------------------------------- user code
    def user_call(self, st, c, args, t, sp):
        """call of code supplied by the user through a type parameter"""
        tr = c.get("trait"); m = c.get("method")
        if m in ("call", "call_mut", "call_once") and args:
            v = args[0]; n = 0
            while v[0] == "r" and v[1] in st.mem and n < 6: v = self.get(st.mem[v[1]], v[2]); n += 1
            if v[0] == "c": raise Unsupported("closure %s called as code of the user" % v[1])
        sts = [st]
        res = []
        if self.on_user:
            r = self.on_user(self, st, c, args, t, sp)
            if r is not None:
                res = r
                sts = []
        for s in sts:
            for s2, v in self.havoc(s, t["dt"], "user"): res.append(("ret", s2, v))
        if self.unwind:
            u = st.fork() if sts else None
            if u is None:
                u = res[0][1].fork() if False else None
        out = []
        if self.unwind:
            us = st.fork()
            self.note(us, sp, "user code panics")
            out.append(("unwind", us, "user code %s at %s" % (m, sp)))
        return out + res
    # ---------------------------------------------------------------- loops
    def kill_dead(self, fr, st, bb):
        live = fr.info.live[bb]
        for i in range(len(fr.body["locals"])):
            if i not in live and i not in fr.info.addr: st.mem[fr.base + i] = UNDEF
    def split_bools(self, st, cells):
        """make every boolean leaf of the given cells concrete"""
        out = [st]
        for c in cells:
            nxt = []
            for s in out:
                stk = [s]
                while stk:
                    x = stk.pop()
                    p = self.find_bool(x.mem.get(c, UNDEF), ())
                    if p is None: nxt.append(x); continue
                    f = self.get(x.mem[c], p)[1]
                    for val, y in x.branch(f):
                        if y is x: y = x.fork()
                        y.mem[c] = self.put(y.mem[c], p, B(TRUE if val else FALSE))
                        stk.append(y)
            out = nxt
        return out
    def find_bool(self, v, path):
        if v[0] == "b": return path if v[1] not in (TRUE, FALSE) else None
        if v[0] == "s": fs = v[1]
        elif v[0] == "e": fs = v[2]; path = path
        elif v[0] == "c": fs = v[2]
        else: return None
        for i, x in enumerate(fs):
            r = self.find_bool(x, path + (i,))
            if r is not None: return r
        return None
    def loop(self, fr, L, st):
        self.kill_dead(fr, st, L.header)
        cells = sorted(st.mem)
        res = []
        for s in self.split_bools(st, cells):
            if self.mode == "unroll": res += self.loop_unroll(fr, L, s)
            else:
                import loops
                res += loops.widen(self, s, lambda x: self.region(fr, L.header, x, L), "%s:bb%d" % L.id)
        return res
    def loop_unroll(self, fr, L, st):
        if self.tm: return self.loop_unroll_seen(fr, L, st)
        cur = [st]
        out = []
        for k in range(self.unroll + 1):
            nxt = []
            for s in cur:
                for e in self.region(fr, L.header, s, L):
                    if e[0] == "back": nxt.append(e[2])
                    else: out.append(e)
            cur = nxt
            if not cur: return out
        self.truncated = True
        return out
    def loop_unroll_seen(self, fr, L, st):
        """unrolling that compares every visit of the header with the earlier ones"""
        import loops
        cells = sorted(st.mem)
        cur = [(st, ())]; out = []; label = "%s:bb%d" % L.id
        for k in range(self.unroll + 1):
            nxt = []
            for s, hist in cur:
                h2 = hist + (loops.abstract(self, s, cells),)
                for e in self.region(fr, L.header, s, L):
                    if e[0] != "back": out.append(e); continue
                    sh, lv = loops.abstract(self, e[2], cells)
                    for osh, olv in h2:
                        if osh == sh: self.tm.again(label, sh, olv, lv, e[2])
                    nxt.append((e[2], h2))
            cur = nxt
            if not cur: return out
        self.truncated = True
        return out

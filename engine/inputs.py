"""Symbolic inputs for an analysed function, built from its signature, and the walk over particles in a result."""
import itertools
from poly import P, ZERO, ONE, const, var, sym
import state as S
from state import St, Reg, I, B, UNIT, UNDEF, TRUE, FALSE, ge, eq, f_and, f_or, f_not, UMAX, IMAX
from interp import Unsupported, INTS, irange

CRATE = "indexing::"
PART = ("Index", "Range", "RangeIter", "Subdivide", "PIndex", "PRange", "PSlice", "PRangeIter", "Container")
MUTB = ("ContiguousMut", "GetUncheckedMut", "Pushable")

# words by which private components of range types are recognised
ROLES = {"start": {"start", "begin", "lo", "low", "lower", "first", "from", "head", "left", "min", "base"},
         "end": {"end", "hi", "high", "upper", "stop", "to", "limit", "right", "max", "past", "finish"},
         "len": {"len", "length", "count", "size"}}
class Anchor(Exception):
    """something the analysis is anchored to is missing from the tree"""

class Ctx:
    def __init__(self, e, fn):
        self.e = e; self.fn = fn; self.T = e.ty
        self.brands = {}        # region name -> region id
        self.assoc = {}; self.traits = {}
        for b in fn["bounds"]:
            s = self.T[b["self"]]["name"] if "self" in b else None
            if b["k"] == "proj" and "term" in b and "::Item" in b["name"]: self.assoc[s] = b["term"]
            if b["k"] == "trait": self.traits.setdefault(s, []).append(b)
        self.args = []          # argument values
        self.argt = fn["ins"]
        self.notes = {}
    # -------------------------------------------------- types
    def kind(self, t):
        t = self.T[t]
        if t["k"] != "adt" or not t["def"].startswith(CRATE): return None
        n = t["def"].rsplit("::", 1)[-1]
        return n if n in PART else None
    def brand(self, t):
        for a in self.T[t].get("args", ()):
            if "re" in a: return a["re"]
    def brand_of_iter(self, t):
        while self.T[t]["k"] == "ref": t = self.T[t]["to"]
        return self.brand(t)
    def proof(self, t):
        """'NonEmpty' | 'Unknown' of a particle type (from its PhantomData field or last argument)"""
        tt = self.T[t]
        for a in reversed(tt.get("args", ())):
            if "ty" in a:
                d = self.T[a["ty"]].get("def", "")
                if d.endswith("proof::NonEmpty"): return "NonEmpty"
                if d.endswith("proof::Unknown"): return "Unknown"
        return "Unknown"
    def tyarg(self, t, i):
        l = [a["ty"] for a in self.T[t].get("args", ()) if "ty" in a]
        return l[i]
    def has(self, tyname, traits):
        return any(b["trait"].rsplit("::", 1)[-1] in traits for b in self.traits.get(tyname, ()))
    def alias_item(self, nm):
        for i, t in enumerate(self.T):
            if t["k"] == "alias" and t["name"].startswith("<%s as" % nm) and t["name"].endswith("::Item"): return i
        return None
    # -------------------------------------------------- regions
    def mkregion(self, st, nm, perm, elt, brand=None, ln=None):
        if ln is None: ln = self.e.fresh(st, "len_" + nm)
        return self.e.new_region(st, nm, perm, ln, elt, brand)
    def rid(self, st, brand, elt=None):
        if brand not in self.brands:
            if elt is None: elt = self.elt_of_params()
            self.brands[brand] = self.mkregion(st, "container " + brand, "shared", elt, brand)
        return self.brands[brand]
    def elt_of_params(self):
        for i, t in enumerate(self.T):
            if t["k"] == "param" and t["param"] == "T": return i
        return None
    def length(self, st, brand): return st.regs[self.brands[brand]].len
    # -------------------------------------------------- values
    def struct(self, st, t, **fields):
        """a struct value of type t with the given fields; zero sized fields are filled in"""
        tt = self.T[t]
        fs = []
        left = dict(fields)
        for f in tt["variants"][0]["f"]:
            if f["n"] in left: fs.append(left.pop(f["n"]))
            else: fs.append(self.zst(f["t"]))
        if left: raise Anchor("type %s has no field %s" % (tt["name"], ", ".join(left)))
        return ("s", tuple(fs))
    def zst(self, t):
        tt = self.T[t]
        if tt["k"] == "adt":
            if tt["def"].endswith("PhantomData"): return UNIT
            if tt["adt"] == "struct": return ("s", tuple(self.zst(f["t"]) for f in tt["variants"][0]["f"]))
        if tt["k"] == "tuple" and not tt["f"]: return UNIT
        raise Anchor("unexpected field of type %s" % tt["name"])
    def leaves(self, t, path=()):
        """non-zero-sized scalar leaves of a particle type: [(path, type)]"""
        tt = self.T[t]
        if tt["k"] in ("int", "ptr", "ref"): return [(path, t)]
        if tt["k"] == "adt" and not tt["def"].endswith("PhantomData") and tt["adt"] == "struct":
            return [x for i, f in enumerate(tt["variants"][0]["f"]) for x in self.leaves(f["t"], path + (i,))]
        if tt["k"] == "tuple": return [x for i, f in enumerate(tt["f"]) for x in self.leaves(f, path + (i,))]
        return []
    def fill(self, t, vals):
        """a value of type t with its scalar leaves taken from vals in order"""
        tt = self.T[t]
        if tt["k"] in ("int", "ptr", "ref"): return next(vals)
        if tt["k"] == "adt":
            if tt["def"].endswith("PhantomData"): return UNIT
            return ("s", tuple(self.fill(f["t"], vals) for f in tt["variants"][0]["f"]))
        if tt["k"] == "tuple": return ("s", tuple(self.fill(f, vals) for f in tt["f"]))
        raise Anchor("unexpected field type %s" % tt["name"])
    def particle(self, st, t, nm, strict=True):
        """[(st, value)] for an arbitrary valid particle of type t"""
        k = self.kind(t); e = self.e
        elt = None
        if k.startswith("P"): elt = self.tyarg(t, 0)
        r = self.rid(st, self.brand(t), elt)
        L = st.regs[r].len
        ne = self.proof(t) == "NonEmpty"
        lv = self.leaves(t)
        if k == "Index":
            self.expect(t, lv, 1)
            i = e.fresh(st, nm); st.add_ge(L - i - (1 if ne else 0))
            return [(st, self.fill(t, iter([I(i)])))]
        if k == "PIndex":
            self.expect(t, lv, 1)
            i = e.fresh(st, nm); st.add_ge(L - i - (1 if ne else 0))
            return [(st, self.fill(t, iter([("p", r, i)])))]
        if k in ("Range", "PRange", "PSlice"):
            self.expect(t, lv, 2)
            a = e.fresh(st, nm + "_start"); b = e.fresh(st, nm + "_end")
            st.add_ge(L - b); st.add_ge(b - a - (1 if ne else 0))
            return [(st, self.mkrange(t, r, a, b))]
        raise Unsupported("input particle " + k)
    def roles(self, t):
        """what the two scalar components of a range type are: a list of 'start', 'end', 'len'"""
        lv = self.leaves(t)
        self.expect(t, lv, 2)
        ks = ["int" if self.T[x]["k"] == "int" else "ptr" for _, x in lv]
        if ks == ["ptr", "int"]: return ["start", "len"]
        if ks == ["int", "ptr"]: return ["len", "start"]
        out = []
        for path, _ in lv:
            tt = self.T[t]; role = None
            for i in path:
                f = tt["variants"][0]["f"][i] if tt["k"] == "adt" else {"n": str(i), "t": tt["f"][i]}
                for w in f["n"].lower().split("_"):
                    for r, words in ROLES.items():
                        if w in words: role = r
                tt = self.T[f["t"]]
            out.append(role)
        if sorted(map(str, out)) not in (["end", "start"], ["len", "start"]): raise Anchor("components of %s are not understood" % self.T[t]["name"])
        return out
    def mkrange(self, t, r, a, b):
        """a value of range type t over positions [a, b) (of region r where it holds pointers)"""
        vs = []
        for role, (_, x) in zip(self.roles(t), self.leaves(t)):
            w = {"start": a, "end": b, "len": b - a}[role]
            vs.append(I(w) if self.T[x]["k"] == "int" else ("p", r, w))
        return self.fill(t, iter(vs))
    def expect(self, t, lv, n):
        if len(lv) != n: raise Anchor("type %s has %d scalar components, %d expected" % (self.T[t]["name"], len(lv), n))
    def container(self, st, t, mutable, owned=False):
        """[(st, value)]"""
        b = self.brand(t)
        arrt = self.tyarg(t, 0)
        at = self.T[arrt]
        elt = None
        perm = "shared"
        if at["k"] == "param":
            nm = at["param"]
            elt = self.assoc.get(nm)
            if elt is None: elt = self.alias_item(nm)
            if mutable and self.has(nm, MUTB): perm = "mut"
            r = self.region_for(st, b, elt, perm)
            av = ("arr", r)
        elif at["k"] == "ref":
            el = self.T[at["to"]]["to"]
            r = self.region_for(st, b, el, "mut" if at["mut"] and mutable else "shared")
            av = ("f", r, ZERO, st.regs[r].len)
        else: raise Unsupported("container over " + at["name"])
        return [(st, self.struct(st, t, **{self.T[t]["variants"][0]["f"][self.storage(t)]["n"]: av}))]
    def storage(self, t):
        """number of the field of a container type that is the storage"""
        fs = [i for i, f in enumerate(self.T[t]["variants"][0]["f"]) if f["t"] == self.tyarg(t, 0)]
        if len(fs) != 1: raise Anchor("storage field of %s" % self.T[t]["name"])
        return fs[0]
    def region_for(self, st, b, elt, perm):
        if b not in self.brands:
            self.brands[b] = self.mkregion(st, "container " + b, perm, elt, b)
        else:
            ri = self.e.ri[self.brands[b]]
            if perm == "mut": ri.perm = "mut"
        return self.brands[b]
    def value(self, st, t, nm, mutable=False, owned=True):
        """[(st, value)]: an arbitrary value of type t as a caller may supply it"""
        e = self.e; tt = self.T[t]; k = tt["k"]
        pk = self.kind(t)
        if pk == "Container": return self.container(st, t, mutable or owned, owned)
        if pk in ("Index", "Range", "PIndex", "PRange", "PSlice"): return self.particle(st, t, nm)
        if pk in ("RangeIter", "PRangeIter", "Subdivide"): return self.iterator(st, t, pk, nm)
        if k == "int": return [(st, I(e.fresh(st, nm, tt["int"])))]
        if k == "bool": return [(st, B(("op", sym(nm))))]
        if k == "tuple":
            cur = [(st, ())]
            for i, f in enumerate(tt["f"]): cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.value(s, f, "%s.%d" % (nm, i), mutable, owned)]
            return [(s, ("s", vs)) for s, vs in cur]
        if k == "ref":
            to = self.T[tt["to"]]
            if to["k"] == "slice":
                r = self.mkregion(st, nm, "mut" if tt["mut"] else "shared", to["to"])
                self.notes.setdefault("slices", []).append((nm, r, tt["mut"]))
                return [(st, ("f", r, ZERO, st.regs[r].len))]
            if to["k"] == "str": return [(st, ("str", nm))]
            out = []
            for s, v in self.value(st, tt["to"], nm, tt["mut"] , False):
                c = e.newcell(s, v)
                self.notes.setdefault("cells", []).append((c, tt["to"], tt["mut"], nm))
                out.append((s, ("r", c, ())))
            return out
        if k == "slice":
            # storage given as an unsized value behind a reference is handled at the reference
            raise Unsupported("unsized slice value")
        if k == "param": return self.param(st, t, nm)
        if k == "adt":
            d = tt["def"]
            if d in ("core::ops::range::RangeFrom", "core::ops::range::RangeTo", "core::ops::range::Range", "core::ops::range::RangeFull"):
                cur = [(st, ())]
                for f in tt["variants"][0]["f"]: cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.value(s, f["t"], nm + "." + f["n"])]
                return [(s, ("s", vs)) for s, vs in cur]
            if d.startswith("alloc::vec::Vec"):
                r = self.mkregion(st, nm, "mut" if mutable or owned else "shared", self.tyarg(t, 0))
                self.notes.setdefault("vecs", []).append((nm, r))
                return [(st, ("vec", r))]
            if tt["adt"] == "struct" and d.startswith(CRATE):
                cur = [(st, ())]
                for f in tt["variants"][0]["f"]: cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.value(s, f["t"], nm + "." + f["n"])]
                return [(s, ("s", vs)) for s, vs in cur]
            if tt["adt"] == "enum" and not tt["variants"]: raise Unsupported("uninhabited input")
        return [(st, ("o", "x", sym(nm)))]
    def param(self, st, t, nm):
        e = self.e; pn = self.T[t]["param"]
        for b in self.traits.get(pn, ()):
            tr = b["trait"].rsplit("::", 1)[-1]
            if tr == "OnePointRange" or tr == "IndexRange":
                pt = b["args"][1]["ty"]
                out = [(st.fork(), ("opr", "full", None, None))]
                for which in ("from", "to"):
                    for s, v in self.value(st.fork(), pt, nm): out.append((s, ("opr", which, v, pt)))
                return out
            if tr == "IntoCheckedRange":
                rt = None
                bre = [a["re"] for a in b["args"] if "re" in a][0]
                for i, x in enumerate(self.T):
                    if self.kind(i) == "Range" and self.proof(i) == "NonEmpty" and self.brand(i) == bre: rt = i
                if rt is None:
                    for i, x in enumerate(self.T):
                        if self.kind(i) == "Range" and self.proof(i) == "NonEmpty": rt = i
                out = []
                r = self.rid(st, bre)
                L = st.regs[r].len
                a = e.fresh(st, nm + "_start"); z = e.fresh(st, nm + "_end")
                st.add_ge(L - z)
                out = []
                f = ("op", sym("checked_" + nm))
                s1 = st.fork(); s1.assume(f); s1.add_ge(z - a - 1)
                out.append((s1, ("icr", f, self.mkrange(rt, None, a, z), rt)))
                s2 = st.fork(); s2.assume(f_not(f))
                out.append((s2, ("icr", f, self.mkrange(rt, None, a, z), rt)))
                return out
            if tr == "PointerRange":
                bre = [a["re"] for a in b["args"] if "re" in a][0]
                r = self.rid(st, bre, None)
                L = st.regs[r].len
                a = e.fresh(st, nm + "_start"); z = e.fresh(st, nm + "_end")
                st.add_ge(L - z); st.add_ge(z - a)
                return [(st, ("prg", r, a, z))]
            if tr == "ContainerRef":
                bre = [a["re"] for a in b["args"] if "re" in a][0]
                r = self.rid(st, bre, None)
                e.ri[r].perm = "mut"
                e.tparams[t] = ("cref", r, True)
                return [(st, ("o", "x", sym(nm)))]
            if tr in ("Trustworthy", "Contiguous", "ContiguousMut", "GetUnchecked", "GetUncheckedMut", "Pushable"):
                r = self.mkregion(st, nm, "mut" if self.has(pn, MUTB) else "shared", self.assoc.get(pn) or self.alias_item(pn))
                self.notes.setdefault("arrs", []).append((nm, r, pn))
                return [(st, ("arr", r))]
        return [(st, ("o", "arg", sym(nm), nm))]
    def iterator(self, st, t, pk, nm): raise Unsupported("iterator value as plain input")
    # -------------------------------------------------- results
    def particles(self, st, v, t, where, out, brandmap=None):
        """collect (where, kind, type, value, formula-relevant data) of particles in value v of type t"""
        tt = self.T[t]; k = tt["k"]
        pk = self.kind(t)
        if pk in ("Index", "Range", "PIndex", "PRange", "PSlice"):
            out.append((where, pk, t, v, st)); return
        if v[0] == "undef": return
        if k == "tuple":
            for i, f in enumerate(tt["f"]):
                if v[0] == "s" and i < len(v[1]): self.particles(st, v[1][i], f, "%s.%d" % (where, i), out)
            return
        if k == "adt":
            if v[0] == "e":
                if v[1] < len(tt["variants"]):
                    var_ = tt["variants"][v[1]]
                    for f, x in zip(var_["f"], v[2]): self.particles(st, x, f["t"], where + "." + var_["n"], out)
                return
            if tt["adt"] == "struct" and v[0] == "s":
                for f, x in zip(tt["variants"][0]["f"], v[1]): self.particles(st, x, f["t"], where + "." + f["n"], out)
            return
        if k == "ref" and v[0] == "r" and v[1] in st.mem:
            self.particles(st, self.e.get(st.mem[v[1]], v[2]), tt["to"], where, out)
    def interval(self, st, t, v):
        """(region id or None, lo, hi, ok?) of a particle value in element positions; None if it is not understood"""
        k = self.kind(t); e = self.e
        lv = []
        def walk(t, v):
            tt = self.T[t]
            if tt["k"] in ("int", "ptr", "ref"): lv.append(v); return
            if tt["k"] == "adt" and not tt["def"].endswith("PhantomData") and v[0] == "s":
                for f, x in zip(tt["variants"][0]["f"], v[1]): walk(f["t"], x)
            if tt["k"] == "tuple" and v[0] == "s":
                for f, x in zip(tt["f"], v[1]): walk(f, x)
        walk(t, v)
        if any(x[0] not in ("i", "p") for x in lv): return None
        if k == "Index": return (None, lv[0][1], None) if len(lv) == 1 and lv[0][0] == "i" else None
        if k == "PIndex": return (lv[0][1], lv[0][2], None) if lv[0][0] == "p" else None
        if k in ("Range", "PRange", "PSlice"):
            if len(lv) != 2 or any(x[0] == "p" for x in lv) != (k != "Range"): return None
            try: at = dict(zip(self.roles(t), lv))
            except Anchor: return None
            x = at["start"]; rid = x[1] if x[0] == "p" else None; lo = x[-1]
            if "len" in at: return (rid, lo, lo + at["len"][1]) if at["len"][0] == "i" else None
            y = at["end"]
            if x[0] != y[0]: return None
            return ("mixed" if rid is not None and rid != y[1] else rid, lo, y[-1])
        return None
def mk_pindex(e, t, p):
    c = Ctx.__new__(Ctx); c.e = e; c.T = e.ty
    return c.fill(t, iter([p]))

"""Functional specifications of the public operations (what each must return or leave behind, for every input).
One function per operation name; they only speak about decoded inputs and results, never about how the code is written."""
import state as S
from poly import P, ZERO, ONE, const, var, sym
from state import TRUE, FALSE, ge, eq, ne, f_and, f_or, f_not, iff, implies
from obs import Part, Var, X, dec, Odd

SPECS = {}
def spec(kinds, names, traits=None):
    def d(f):
        for k in kinds.split():
            for n in names.split(): SPECS.setdefault((k, n), []).append((traits, f))
        return f
    return d
def lookup(kind, name, trait):
    for tr, f in SPECS.get((kind, name), ()):
        if tr is None and trait is None: return f
        if tr is not None and trait in tr: return f
    return None
def ptr(x): return x.ins[0].kind.startswith("P") if isinstance(x.ins[0], Part) else False
def pick(x, p): return "C22" if ptr(x) else p
def lt(a, b): return ge(b - a - 1)
def le(a, b): return ge(b - a)
def istrue(f): return f
RNG = "Range PRange PSlice"
# ---------------------------------------------------------------- plain queries
@spec(RNG, "len", (None, "PointerRange"))
def _(x): x.need(pick(x, "C08"), "len is the number of positions", eq(x.n(x.out - (x.ins[0].hi - x.ins[0].lo))))
SPECS[("Range", "len")].append((None, _)); SPECS[("PRange", "len")].append((None, _)); SPECS[("PSlice", "len")].append((None, _))
@spec(RNG, "is_empty")
def _(x): x.need(pick(x, "C08"), "is_empty exactly when there is no position", iff(x.out, eq(x.n(x.ins[0].hi - x.ins[0].lo))))
@spec("Range", "start")
def _(x): x.need("C08", "start", eq(x.n(x.out - x.ins[0].lo)))
@spec("Range", "end")
def _(x): x.need("C08", "end", eq(x.n(x.out - x.ins[0].hi)))
@spec("Range", "as_range")
def _(x):
    x.need("C08", "as_range start", eq(x.n(x.out["start"] - x.ins[0].lo))); x.need("C08", "as_range end", eq(x.n(x.out["end"] - x.ins[0].hi)))
@spec("Index", "integer")
def _(x): x.need("C08", "integer is the position", eq(x.n(x.out - x.ins[0].lo)))
@spec("PIndex", "ptr ptr_mut")
def _(x):
    p = x.ins[0]
    x.need("C22", "ptr is the position", FALSE if x.out[0] != "ptr" or x.out[1] != p.rid else eq(x.n(x.out[2] - p.lo)))
@spec("Container", "len")
def _(x): x.need("C18", "len is the length of the storage", eq(x.n(x.out - x.length())))
# ---------------------------------------------------------------- vetting
def checked(x, prop, cond, good, lo, hi=None, what=""):
    """result is Ok/Some of exactly [lo, hi) iff cond"""
    if not isinstance(x.out, Var): raise Odd("result of checked operation")
    if x.out.n in ("Ok", "Some"):
        x.need(prop, what + " succeeds only when it may", cond)
        x.need(prop, what + " returns exactly the requested positions", x.same(x.out.fs[0], lo, hi))
    else: x.need(prop, what + " fails only when it must", f_not(cond))
@spec("Container", "vet")
def _(x):
    i = x.ins[1]; checked(x, "C07", lt(i, x.length()), None, i, what="vet")
@spec("Container", "vet_range")
def _(x):
    a, b = x.ins[1]["start"], x.ins[1]["end"]
    checked(x, "C07", f_and(le(a, b), le(b, x.length())), None, a, b, what="vet_range")
@spec("Range", "contains")
def _(x):
    r, i = x.ins[0], x.ins[1]
    checked(x, "C07", f_and(le(r.lo, i), lt(i, r.hi)), None, i, what="contains")
@spec(RNG, "nonempty")
def _(x):
    r = x.ins[0]; checked(x, "C22" if ptr(x) else "C07", lt(r.lo, r.hi), None, r.lo, r.hi, what="nonempty")
@spec("Range", "into", ("IntoCheckedRange",))
def _(x):
    r = x.ins[0]; checked(x, "C07", lt(r.lo, r.hi), None, r.lo, r.hi, what="into (checked range)")
@spec("Range", "join")
def _(x):
    r, o = x.ins[0], x.ins[1]; checked(x, "C07", eq(x.n(r.hi - o.lo)), None, r.lo, o.hi, what="join")
@spec("Container", "index_twice")
def _(x):
    r, s = x.ins[1], x.ins[2]
    cond = le(r.hi, s.lo)
    if x.out.n == "Ok":
        x.need("C07", "index_twice succeeds only when the first range ends before the second starts", cond)
        a, b = x.out.fs[0]
        rid = x.rid()
        for w, sl, q in (("first", a, r), ("second", b, s)):
            ok = sl[0] == "sl" and sl[1] == rid
            f = f_and(eq(x.n(sl[2] - q.lo)), eq(x.n(sl[3] - (q.hi - q.lo)))) if ok else FALSE
            x.need("C07", "index_twice: the %s slice is exactly the %s range" % (w, w), f)
            x.need("C28", "index_twice: the %s slice is exactly the %s range" % (w, w), f)
        f = FALSE if a[0] != "sl" or b[0] != "sl" else (TRUE if a[1] != b[1] else f_or(le(a[2] + a[3], b[2]), le(b[2] + b[3], a[2]), eq(a[3]), eq(b[3])))
        x.need("C05", "the two slices of index_twice do not overlap", f)
    else: x.need("C07", "index_twice fails only when the ranges are not in order", f_not(cond))
@spec("Container", "make_twin")
def _(x):
    n = x.length(1)
    cond = eq(x.n(x.length(0) - n))
    if x.out.n == "Ok":
        for p in ("C06", "C07"): x.need(p, "make_twin succeeds only for equal lengths", cond)
        a = x.out.fs[0]
        b = x.ins[1]
        b = ("arr", b[1]) if b[0] == "sl" else b
        a = a[1] if a[0] == "cont" else a
        x.need("C07", "the twin is over the storage that was given", TRUE if a[0] == b[0] and a[1] == b[1] else FALSE)
    else: x.need("C07", "make_twin fails only for different lengths", f_not(cond))
@spec("Container", "nonempty_range")
def _(x):
    a, b = x.ins[1], x.ins[2]
    checked(x, "C22", lt(a.lo, b.lo), None, a.lo, b.lo, what="nonempty_range")
# ---------------------------------------------------------------- range algebra
@spec(RNG, "split_in_half")
def _(x):
    r = x.ins[0]; a, b = x.out; p = pick(x, "C08")
    n = r.hi - r.lo; h = a.hi - a.lo
    x.need(p, "split_in_half: adjacent pieces covering the range", f_and(eq(x.n(a.lo - r.lo)), eq(x.n(b.lo - a.hi)), eq(x.n(b.hi - r.hi))))
    x.need(p, "split_in_half: the first half has floor(len/2) positions", f_and(ge(x.n(n - 2 * h)), ge(x.n(2 * h + 1 - n))))
@spec("Range", "split_at")
def _(x):
    r, i = x.ins[0], x.ins[1]; a, b, ok = x.out
    n = r.hi - r.lo
    mid = a.hi - r.lo
    x.need("C08", "split_at: adjacent pieces covering the range", f_and(eq(x.n(a.lo - r.lo)), eq(x.n(b.lo - a.hi)), eq(x.n(b.hi - r.hi))))
    x.need("C08", "split_at: the boundary is the given offset, clamped to the end", f_or(f_and(le(i, n), eq(x.n(mid - i))), f_and(lt(n, i), eq(x.n(mid - n)))))
    x.need("C08", "split_at: the flag tells whether the offset was within the range", iff(ok, le(i, n)))
@spec("Range", "join_cover")
def _(x):
    r, o = x.ins[0], x.ins[1]
    if not isinstance(x.out, Part): raise Odd("join_cover result")
    x.need("C08", "join_cover starts where self starts and ends at the later end", f_and(eq(x.n(x.out.lo - r.lo)), f_or(f_and(ge(r.hi - o.hi), eq(x.n(x.out.hi - r.hi))), f_and(lt(r.hi, o.hi), eq(x.n(x.out.hi - o.hi))))))
@spec("Range", "join_cover_both")
def _(x):
    r, o = x.ins[0], x.ins[1]
    x.need("C08", "join_cover_both is the hull: end", f_or(f_and(ge(r.hi - o.hi), eq(x.n(x.out.hi - r.hi))), f_and(lt(r.hi, o.hi), eq(x.n(x.out.hi - o.hi)))))
    x.need("C08", "join_cover_both is the hull: start", f_or(f_and(ge(o.lo - r.lo), eq(x.n(x.out.lo - r.lo))), f_and(lt(o.lo, r.lo), eq(x.n(x.out.lo - o.lo)))))
@spec("Range", "frontiers")
def _(x):
    r = x.ins[0]; a, b = x.out
    x.need("C08", "frontiers: the empty range at the start", x.same(a, r.lo, r.lo)); x.need("C08", "frontiers: the empty range at the end", x.same(b, r.hi, r.hi))
@spec("Range PRange PSlice", "no_proof", (None, "Provable"))
def _(x):
    r = x.ins[0]; x.need(pick(x, "C08"), "no_proof does not move the range", x.same(x.out, r.lo, r.hi))
SPECS[("Range", "no_proof")].append((None, _))
@spec("Index PIndex", "no_proof", ("Provable",))
def _(x): x.need(pick(x, "C08"), "no_proof does not move the index", x.same(x.out, x.ins[0].lo))
@spec(RNG, "first", ("PointerRange",))
def _(x): x.need(pick(x, "C08"), "first is the start", x.same(x.out, x.ins[0].lo))
for k in RNG.split(): SPECS[(k, "first")].append((None, _))
@spec(RNG, "past_the_end")
def _(x): x.need(pick(x, "C08"), "past_the_end is the end", x.same(x.out, x.ins[0].hi))
@spec("PRange PSlice", "end", ("PointerRange",))
def _(x): x.need("C22", "end of a pointer range", x.same(x.out, x.ins[0].hi))
@spec(RNG, "last")
def _(x): x.need(pick(x, "C08"), "last is the position before the end", x.same(x.out, x.ins[0].hi - 1))
@spec(RNG, "upper_middle")
def _(x):
    r = x.ins[0]; n = r.hi - r.lo; h = x.out.lo - r.lo
    x.need(pick(x, "C08"), "upper_middle is start + floor(len/2)", f_and(ge(x.n(n - 2 * h)), ge(x.n(2 * h + 1 - n))))
@spec(RNG, "lower_middle")
def _(x):
    r = x.ins[0]; n = r.hi - r.lo - 1; h = x.out.lo - r.lo
    x.need(pick(x, "C08"), "lower_middle is start + floor((len-1)/2)", f_and(ge(x.n(n - 2 * h)), ge(x.n(2 * h + 1 - n))))
@spec(RNG, "tail")
def _(x): x.need(pick(x, "C08"), "tail is all but the first position", x.same(x.out, x.ins[0].lo + 1, x.ins[0].hi))
@spec(RNG, "init")
def _(x): x.need(pick(x, "C08"), "init is all but the last position", x.same(x.out, x.ins[0].lo, x.ins[0].hi - 1))
@spec("Index PIndex", "after")
def _(x): x.need(pick(x, "C08"), "after is the next position", x.same(x.out, x.ins[0].lo + 1))
@spec("PRange PSlice", "from", ("From",))
def _(x): x.need("C22", "conversion keeps the interval", x.same(x.out, x.ins[0].lo, x.ins[0].hi))
# containers
@spec("Container", "range pointer_range pointer_slice")
def _(x): x.need("C08" if x.fn["name"] == "range" else "C22", "the full range of the container", x.same(x.out, ZERO, x.length()))
@spec("Container", "empty_range")
def _(x): x.need("C08", "the empty range at 0", x.same(x.out, ZERO, ZERO))
@spec("Container", "split_at split_at_pointer")
def _(x):
    i = x.ins[1].lo; a, b = x.out; p = "C08" if x.fn["name"] == "split_at" else "C22"
    x.need(p, "split_at: [0, i)", x.same(a, ZERO, i)); x.need(p, "split_at: [i, len)", x.same(b, i, x.length()))
@spec("Container", "split_after")
def _(x):
    i = x.ins[1].lo; a, b = x.out
    x.need("C08", "split_after: [0, i]", x.same(a, ZERO, i + 1)); x.need("C08", "split_after: (i, len)", x.same(b, i + 1, x.length()))
@spec("Container", "split_around")
def _(x):
    r = x.ins[1]; a, b = x.out
    x.need("C08", "split_around: before", x.same(a, ZERO, r.lo)); x.need("C08", "split_around: after", x.same(b, r.hi, x.length()))
@spec("Container", "before")
def _(x): x.need("C08", "before: [0, i)", x.same(x.out, ZERO, x.ins[1].lo))
@spec("Container", "after")
def _(x): x.need("C08", "after: (i, len)", x.same(x.out, x.ins[1].lo + 1, x.length()))
@spec("Container", "range_of pointer_range_of")
def _(x):
    v = x.vs[1]; p = "C08" if x.fn["name"] == "range_of" else "C22"
    if v[0] != "opr": raise Odd("one point range")
    if v[1] == "full": lo, hi = ZERO, x.length()
    else:
        i = x.c.interval(x.st, v[3], v[2])[1]
        lo, hi = (i, x.length()) if v[1] == "from" else (ZERO, i)
    x.need(p, "range_of: exactly the requested part (%s)" % v[1], x.same(x.out, lo, hi))
@spec("Container", "distance_to")
def _(x): x.need("C22", "distance_to is the position", eq(x.n(x.out - x.ins[1].lo)))
@spec("Container", "only_index clone", (None, "Clone"))
def _(x):
    a, b = x.out, x.ins[0]
    same = a[0] == "cont" and b[0] == "cont" and a[1][:2] == b[1][:2]
    x.need("C06", "%s keeps the storage" % x.fn["name"], TRUE if same else FALSE)
SPECS[("Container", "only_index")].append((None, _))
@spec("Index Range PIndex PRange PSlice", "clone", ("Clone",))
def _(x):
    r = x.ins[0]; x.need(pick(x, "C08"), "a copy denotes the same positions", x.same(x.out, r.lo, r.hi))
# ---------------------------------------------------------------- stepping
def stepped(x, prop, arg, cond, lo, hi=None, what=""):
    old = x.ins[arg]; new = x.post(arg)
    for ok in (True, False):
        for s in x.st.sat_states(x.out if ok else f_not(x.out)):
            y = X(x.an, x.c, x.fn, s, x.ins, x.vs, x.out, x.outv)
            if ok:
                y.need(prop, what + " reports success only when the moved particle is valid", cond)
                y.need(prop, what + " moves exactly as requested", y.same(new, lo, hi))
            else:
                y.need(prop, what + " reports failure only when it must", f_not(cond))
                y.need(prop, what + " leaves the particle unchanged on failure", y.same(new, old.lo, old.hi))
@spec("Container", "forward")
def _(x):
    i = x.ins[1].lo; stepped(x, "C09", 1, lt(i + 1, x.length()), i + 1, what="forward")
@spec("Container", "forward_by")
def _(x):
    i = x.ins[1].lo + x.ins[2]; stepped(x, "C09", 1, lt(i, x.length()), i, what="forward_by")
@spec("Container", "backward")
def _(x):
    i = x.ins[1].lo; stepped(x, "C09", 1, ge(i - 1), i - 1, what="backward")
@spec("Range", "forward_by")
def _(x):
    i = x.ins[1].lo + x.ins[2]; stepped(x, "C09", 1, lt(i, x.ins[0].hi), i, what="Range::forward_by")
@spec(RNG, "advance")
def _(x):
    r = x.ins[0]; stepped(x, pick(x, "C09"), 0, lt(r.lo + 1, r.hi), r.lo + 1, r.hi, what="advance")
@spec(RNG, "advance_by")
def _(x):
    r = x.ins[0]; stepped(x, pick(x, "C09"), 0, lt(r.lo + x.ins[1], r.hi), r.lo + x.ins[1], r.hi, what="advance_by")
@spec(RNG, "advance_back")
def _(x):
    r = x.ins[0]; stepped(x, pick(x, "C09"), 0, lt(r.lo, r.hi - 1), r.lo, r.hi - 1, what="advance_back")
@spec("Range", "advance_")
def _(x):
    r = x.ins[0]; checked(x, "C09", lt(r.lo + 1, r.hi), None, r.lo + 1, r.hi, what="advance_")
def clamped(v, a, m): return f_or(f_and(ge(m - a), eq(v - a)), f_and(lt(m, a), eq(v - m)))
@spec("Container Range", "forward_range_by")
def _(x):
    r, o = x.ins[1], x.ins[2]
    m = x.length() if not isinstance(x.ins[0], Part) else x.ins[0].hi
    x.need("C09", "forward_range_by: start moved by the offset, clamped", clamped(x.n(x.out.lo), r.lo + o, m))
    x.need("C09", "forward_range_by: end moved by the offset, clamped", clamped(x.n(x.out.hi), r.hi + o, m))
# ---------------------------------------------------------------- comparison
def key(p): return [p.lo] if p.hi is None else [p.lo, p.hi]
def lex(a, b):
    """formulas less / equal for keys"""
    if len(a) == 1: return lt(a[0], b[0]), eq(a[0] - b[0])
    return f_or(lt(a[0], b[0]), f_and(eq(a[0] - b[0]), lt(a[1], b[1]))), f_and(eq(a[0] - b[0]), eq(a[1] - b[1]))
CMPK = "Index Range PIndex PRange PSlice"
@spec(CMPK, "eq ne", ("PartialEq",))
def _(x):
    l, q = lex(key(x.ins[0]), key(x.ins[1]))
    x.need("C15", "%s compares the positions" % x.fn["name"], iff(x.out, q if x.fn["name"] == "eq" else f_not(q)))
@spec(CMPK, "lt le gt ge", ("PartialOrd",))
def _(x):
    l, q = lex(key(x.ins[0]), key(x.ins[1])); n = x.fn["name"]
    f = {"lt": l, "le": f_or(l, q), "gt": f_and(f_not(l), f_not(q)), "ge": f_not(l)}[n]
    x.need("C15", n + " compares the positions", iff(x.out, f))
@spec(CMPK, "partial_cmp cmp", ("PartialOrd", "Ord"))
def _(x):
    l, q = lex(key(x.ins[0]), key(x.ins[1]))
    o = x.out
    if o.n == "None": x.fail("C15", "partial_cmp always gives an answer"); return
    if o.n == "Some": o = o.fs[0]
    f = {"Less": l, "Equal": q, "Greater": f_and(f_not(l), f_not(q))}[o.n]
    x.need("C15", x.fn["name"] + " orders by the positions", f)
@spec(CMPK, "max min", ("Ord",))
def _(x):
    l, q = lex(key(x.ins[0]), key(x.ins[1])); n = x.fn["name"]
    a, b = x.ins[0], x.ins[1]
    first = f_and(*[eq(u - v) for u, v in zip(key(x.out), key(a))]); second = f_and(*[eq(u - v) for u, v in zip(key(x.out), key(b))])
    x.need("C15", n, f_or(f_and(l, first if n == "min" else second), f_and(f_not(l), f_not(q), second if n == "min" else first), f_and(q, first)))
@spec(CMPK, "hash", ("Hash",))
def _(x):
    ev = x.st.gh.get("#hash", ())
    want = key(x.ins[0]); fs = []
    ok = len(ev) == len(want)
    for (m, v), w in zip(ev, want):
        # a position: the integer itself, or the address of the element it denotes
        if m == "write_usize" and isinstance(v, P):
            ri = x.e.ri[x.ins[0].rid] if ptr(x) else None
            fs.append(eq(x.n(v - (ri.addr + w * ri.size if ri else w))))
        else: raise Odd("hashed value %r" % (v,))
    x.need("C15", "hash feeds exactly the position(s) to the hasher", f_and(*fs) if ok else FALSE)
# ---------------------------------------------------------------- indexing
@spec("Container", "index index_mut", ("Index", "IndexMut"))
def _(x):
    i = x.ins[1]; rid = x.rid(); n = x.length()
    o = x.out
    what = "indexing reaches exactly the denoted elements"
    if isinstance(i, Part) and i.hi is None:
        x.need("C28", what, eq(x.n(o[2] - i.lo)) if o[0] == "ptr" and o[1] == rid else FALSE); return
    if isinstance(i, Part): lo, hi = i.lo, i.hi
    elif isinstance(i, dict):
        lo = i["start"].lo if "start" in i else ZERO
        hi = i["end"].lo if "end" in i else n
    else: lo, hi = ZERO, n
    x.need("C28", what, f_and(eq(x.n(o[2] - lo)), eq(x.n(o[3] - (hi - lo)))) if o[0] == "sl" and o[1] == rid else FALSE)
# ---------------------------------------------------------------- storage adapters
AD = "Storage"
# a container over any storage is analysed against these contracts, so every property that rests on them is decided here too
ON = {"len": ("C18", "C02", "C03", "C04", "C06", "C07", "C17", "C28"), "ptr": ("C18", "C04", "C17", "C22", "C28"), "slice": ("C18", "C04", "C28"), "get": ("C18", "C04", "C13", "C28"), "grow": ("C18", "C06")}
def needs(x, what, label, f):
    for p in ON[what]: x.need(p, label, f)
def stor(x):
    v = x.ins[0]
    if v[0] == "sl": return v[1], v[2], v[3]
    raise Odd("storage")
def len0(x, rid): return x.st.gh["#len0"][rid]
@spec(AD, "base_len", ("Trustworthy",))
def _(x):
    r, o, n = stor(x); needs(x, "len", "base_len is the number of elements", eq(x.n(x.out - n)))
@spec(AD, "begin begin_mut", ("Contiguous", "ContiguousMut"))
def _(x):
    r, o, n = stor(x); needs(x, "ptr", "begin is the first element", eq(x.n(x.out[2] - o)) if x.out[0] == "ptr" and x.out[1] == r else FALSE)
@spec(AD, "end end_mut", ("Contiguous", "ContiguousMut"))
def _(x):
    r, o, n = stor(x); needs(x, "ptr", "end is one past the last element", eq(x.n(x.out[2] - o - n)) if x.out[0] == "ptr" and x.out[1] == r else FALSE)
@spec(AD, "as_slice as_mut_slice", ("Contiguous", "ContiguousMut"))
def _(x):
    r, o, n = stor(x)
    needs(x, "slice", "the slice view covers exactly the storage", f_and(eq(x.n(x.out[2] - o)), eq(x.n(x.out[3] - n))) if x.out[0] == "sl" and x.out[1] == r else FALSE)
@spec(AD, "xget_unchecked xget_unchecked_mut", ("GetUnchecked", "GetUncheckedMut"))
def _(x):
    r, o, n = stor(x); needs(x, "get", "unchecked access i reaches element i", eq(x.n(x.out[2] - o - x.ins[1])) if x.out[0] == "ptr" and x.out[1] == r else FALSE)
def grown(x, prop, r, at, elem):
    """storage r is the old storage with elem inserted at position at"""
    st = x.st; n = len0(x, r)
    x.need(prop, "exactly one element is added", eq(x.n(st.regs[r].len - n - 1)))
    k = var(sym("k"))
    s0 = st.fork(); s0.add_ge(k); s0.add_ge(s0.regs[r].len - k - 1)
    for f, want in ((lt(k, at), k), (eq(k - at), None), (lt(at, k), k - 1)):
        for s in s0.sat_states(f):
            for s2, tok in x.e.content_at(s, r, k):
                y = X(x.an, x.c, x.fn, s2, x.ins, x.vs, x.out, x.outv)
                if want is None: y.need(prop, "the new element is at its position", TRUE if tok == elem else FALSE)
                else: y.need(prop, "the other elements keep their order", eq(y.n(tok[3] - want)) if tok[0] == "o" and tok[1] == "tok" and tok[2] == x.e.ri[r].ver0 else FALSE)
@spec(AD, "push", ("Pushable",))
def _(x):
    r = x.ins[0][1]; n = len0(x, r)
    needs(x, "grow", "push returns the index of the new element", eq(x.n(x.out - n)))
    for p in ON["grow"]: grown(x, p, r, n, x.vs[1])
@spec(AD, "insert_unchecked", ("Pushable",))
def _(x):
    for p in ON["grow"]: grown(x, p, x.ins[0][1], x.ins[1], x.vs[2])
@spec("Container", "push")
def _(x):
    r = x.rid(); n = len0(x, r)
    x.need("C06", "push returns the index of the pushed element", x.same(x.out, n))
    grown(x, "C06", r, n, x.vs[1])
@spec("Container", "insert")
def _(x): grown(x, "C06", x.rid(), x.ins[1].lo, x.vs[2])
@spec("RangeFull RangeFrom RangeTo Range_", "start end", ("IndexRange",))
def _(x):
    r = x.ins[0]; n = x.fn["name"]
    has = isinstance(r, dict) and n in r
    o = x.out
    ok = (o.n == "Some" and o.fs[0] == r[n]) if has else o.n == "None"
    x.need("C08", "IndexRange::%s reports exactly the bound the range expression has" % n, TRUE if ok else FALSE)
# ---------------------------------------------------------------- element moves
def moved(x, prop, r, f_src, what):
    """for every position k of region r: the element there came from f_src(k) = list of (condition, source position)"""
    k = var(sym("k"))
    s0 = x.st.fork(); s0.add_ge(k); s0.add_ge(s0.regs[r].len - k - 1)
    for cond, src in f_src(k):
        for s in s0.sat_states(cond):
            for s2, tok in x.e.content_at(s, r, k):
                y = X(x.an, x.c, x.fn, s2, x.ins, x.vs, x.out, x.outv)
                ok = tok[0] == "o" and tok[1] == "tok" and tok[2] == x.e.ri[r].ver0
                y.need(prop, what, eq(y.n(tok[3] - src)) if ok else FALSE)
@spec("Container", "swap swap_ptr")
def _(x):
    i, j = x.ins[1].lo, x.ins[2].lo
    moved(x, "C13", x.rid(), lambda k: [(eq(k - i), j), (f_and(eq(k - j), ne(k - i)), i), (f_and(ne(k - i), ne(k - j)), k)], "swap exchanges exactly the two elements")
def rot(x, r, lo, hi, up, cond=TRUE):
    n1 = hi - 1
    if up: fs = lambda k: [(f_and(cond, eq(k - lo), lt(lo, hi)), n1), (f_and(cond, lt(lo, k), lt(k, hi)), k - 1), (f_or(f_not(cond), lt(k, lo), ge(k - hi)), k)]
    else: fs = lambda k: [(f_and(cond, eq(k - n1), lt(lo, hi)), lo), (f_and(cond, le(lo, k), lt(k, n1)), k + 1), (f_or(f_not(cond), lt(k, lo), ge(k - hi)), k)]
    moved(x, "C13", r, fs, "%s moves exactly the elements it should" % x.fn["name"])
@spec("Container", "rotate1_up rotate1_down")
def _(x):
    v = x.vs[1]
    if v[0] != "icr": raise Odd("checked range argument")
    iv = x.c.interval(x.st, v[3], v[2])
    rot(x, x.rid(), x.n(iv[1]), x.n(iv[2]), x.fn["name"] == "rotate1_up", v[1])
@spec("Container", "rotate1_prange")
def _(x): rot(x, x.rid(), x.ins[1].lo, x.ins[1].hi, True)

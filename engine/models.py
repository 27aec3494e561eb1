"""Transfer functions for compiler intrinsics, a small part of core/alloc, and the contracts of the crate's own
unsafe storage traits when they are called on a type parameter."""
from poly import P, ZERO, ONE, const, var, sym
import state as S
from state import St, Reg, I, B, UNIT, UNDEF, TRUE, FALSE, ge, eq, ne, f_and, f_or, f_not, UMAX, IMAX
import interp
from interp import Unsupported, INTS, irange

def tyargs(c): return [a["ty"] for a in (c.get("args") or []) if "ty" in a]
def some(v): return ("e", 1, (v,))
NONE = ("e", 0, ())
def opt_variants(e, tyix):
    """(none index, some index) of an Option-like enum type"""
    return 0, 1
def storage(e, st, v):
    """('arr', rid) behind references"""
    n = 0
    while v[0] == "r" and n < 6:
        if v[1] not in st.mem: return None
        v = e.get(st.mem[v[1]], v[2]); n += 1
    return v
def vecval(e, st, v):
    v = storage(e, st, v)
    return v if v is not None and v[0] == "vec" else None

def install(e):
    m = e.models
    R = lambda st, v: [("ret", st, v)]
    # ------------------------------------------------------------- arithmetic intrinsics
    def ity(e, c):
        a = tyargs(c)
        if a and e.ty[a[0]]["k"] == "int": return e.ty[a[0]]["int"]
        return None
    def saturating(op):
        def h(e, st, c, args, t, sp):
            it = ity(e, c)
            if it is None or args[0][0] != "i" or args[1][0] != "i": return None
            lo, hi = irange(it)
            p = args[0][1] + args[1][1] if op == "add" else args[0][1] - args[1][1]
            p = st.norm(p)
            out = []
            for s in st.sat_states(f_and(ge(p - lo), ge(const(hi) - p))): out.append(("ret", s, I(p)))
            for s in st.sat_states(ge(p - hi - 1)): out.append(("ret", s, I(hi)))
            for s in st.sat_states(ge(const(lo - 1) - p)): out.append(("ret", s, I(lo)))
            return out
        return h
    def wrapping(op):
        def h(e, st, c, args, t, sp):
            it = ity(e, c)
            if it is None or args[0][0] != "i" or args[1][0] != "i": return None
            a, b = args[0][1], args[1][1]
            p = a + b if op == "add" else a - b if op == "sub" else a * b
            return [("ret", s, I(q)) for s, q in e.wrap(st, p, it)]
        return h
    def viabin(op, ti=0):
        def h(e, st, c, args, t, sp):
            a = tyargs(c)
            if not a: return None
            return [("ret", s, v) for s, v in e.binop(st, op, args[0], args[1], a[ti], sp)]
        return h
    for w in ("add", "sub"): m["intrinsic:saturating_" + w] = saturating(w)
    for w in ("add", "sub", "mul"):
        m["intrinsic:wrapping_" + w] = wrapping(w)
        m["intrinsic:%s_with_overflow" % w] = viabin(w.capitalize() + "WithOverflow")
        m["intrinsic:unchecked_" + w] = viabin(w.capitalize() + "Unchecked")
    m["intrinsic:unchecked_div"] = viabin("Div"); m["intrinsic:unchecked_rem"] = viabin("Rem")
    m["intrinsic:exact_div"] = viabin("Div")
    m["intrinsic:unchecked_shl"] = viabin("Shl"); m["intrinsic:unchecked_shr"] = viabin("Shr")
    m["intrinsic:disjoint_bitor"] = None
    m.pop("intrinsic:disjoint_bitor")
    def minmax(mx):
        def h(e, st, c, args, t, sp):
            a, b = st.norm(args[0][1]), st.norm(args[1][1])
            out = [("ret", s, I(a if mx else b)) for s in st.sat_states(ge(a - b))]
            out += [("ret", s, I(b if mx else a)) for s in st.sat_states(ge(b - a - 1))]
            return out
        return h
    m["intrinsic:integer_max"] = minmax(True); m["intrinsic:integer_min"] = minmax(False)
    def threeway(e, st, c, args, t, sp):
        return [("ret", s, v) for s, v in e.binop(st, "Cmp", args[0], args[1], tyargs(c)[0], sp)]
    m["intrinsic:three_way_compare"] = threeway
    def bits(fun):
        def h(e, st, c, args, t, sp):
            it = ity(e, c)
            if it is None or args[0][0] != "i" or INTS[it][1]: return None
            r = e.cases(st, args[0][1])
            if r is None: return None
            out = []
            for s, k in r:
                if k is not None: out.append(("ret", s, I(fun(k, INTS[it][0])))); continue
                s.approx = s.approx | {"bit operation on an element size"}
                v = e.fresh(s, "bits"); s.add_ge(const(INTS[it][0]) - v); out.append(("ret", s, I(v)))
            return out
        return h
    m["intrinsic:cttz"] = m["intrinsic:cttz_nonzero"] = bits(lambda k, w: w if k == 0 else (k & -k).bit_length() - 1)
    m["intrinsic:ctlz"] = m["intrinsic:ctlz_nonzero"] = bits(lambda k, w: w - k.bit_length())
    m["intrinsic:ctpop"] = bits(lambda k, w: bin(k).count("1"))
    # ------------------------------------------------------------- hints
    def unit(e, st, c, args, t, sp): return R(st, UNIT)
    def first(e, st, c, args, t, sp): return R(st, args[0])
    for k in ("cold_path", "black_box_unit"): m["intrinsic:" + k] = unit
    for k in ("likely", "unlikely", "black_box"): m["intrinsic:" + k] = first
    def assume(e, st, c, args, t, sp):
        return [("ret", s, UNIT) for s in e.oblige(st, "ub", args[0][1], "assumed condition holds", sp)]
    m["intrinsic:assume"] = assume
    m["core::hint::assert_unchecked"] = assume
    def unreachable(e, st, c, args, t, sp):
        e.oblige(st, "ub", FALSE, "unreachable_unchecked is not reached", sp)
        return []
    m["intrinsic:unreachable"] = unreachable
    m["core::hint::unreachable_unchecked"] = unreachable
    def false_(e, st, c, args, t, sp): return R(st, B(FALSE))
    m["intrinsic:ub_checks"] = false_
    m["core::ub_checks::check_language_ub"] = false_
    m["intrinsic:is_val_statically_known"] = false_
    def size_of(e, st, c, args, t, sp):
        p = e.size_of(tyargs(c)[0])
        for x in p.syms(): st.add_ge(var(x) - 1)
        return R(st, I(p))
    m["core::mem::size_of"] = size_of; m["intrinsic:size_of"] = size_of
    def align_of(e, st, c, args, t, sp):
        return R(st, I(e.fresh(st, "align")))
    m["core::mem::align_of"] = align_of; m["intrinsic:min_align_of"] = align_of; m["intrinsic:align_of"] = align_of
    def needs_drop(e, st, c, args, t, sp): return R(st, B(("op", sym("needs_drop"))))
    m["intrinsic:needs_drop"] = needs_drop; m["core::mem::needs_drop"] = needs_drop
    def discr(e, st, c, args, t, sp):
        v = storage(e, st, args[0])
        a = e.ty[tyargs(c)[0]]
        if v is not None and v[0] == "e" and a["k"] == "adt": return R(st, I(a["variants"][v[1]]["d"]))
        return None
    m["intrinsic:discriminant_value"] = discr
    # ------------------------------------------------------------- memory
    def copy_(nov):
        def h(e, st, c, args, t, sp):
            return [("ret", s, UNIT) for s in e.copy_elems(st, args[0], args[1], args[2][1], nov, sp)]
        return h
    m["intrinsic:copy"] = copy_(False); m["intrinsic:copy_nonoverlapping"] = copy_(True)
    m["core::ptr::copy"] = copy_(False); m["core::ptr::copy_nonoverlapping"] = copy_(True)
    def swap(e, st, c, args, t, sp):
        return [("ret", s, UNIT) for s in e.swap_places(st, args[0], args[1], sp)]
    for k in ("intrinsic:typed_swap_nonoverlapping", "core::mem::swap", "core::ptr::swap"): m[k] = swap
    def replace(e, st, c, args, t, sp):
        out = []
        lv = e.deref(args[0])
        for s, v in e.read(st, lv, sp=sp):
            for s2 in e.write(s, lv, args[1], sp): out.append(("ret", s2, v))
        return out
    for k in ("core::mem::replace", "core::ptr::replace", "core::ptr::mut_ptr::<impl *mut T>::replace"): m[k] = replace
    def read(e, st, c, args, t, sp):
        return [("ret", s, v) for s, v in e.read(st, e.deref(args[0]), sp=sp)]
    for k in ("core::ptr::read", "core::ptr::read_unaligned", "core::ptr::read_volatile", "core::ptr::const_ptr::<impl *const T>::read",
              "core::ptr::mut_ptr::<impl *mut T>::read", "intrinsic:read_via_copy", "intrinsic:volatile_load", "intrinsic:unaligned_volatile_load"): m[k] = read
    def write(e, st, c, args, t, sp):
        return [("ret", s, UNIT) for s in e.write(st, e.deref(args[0]), args[1], sp)]
    for k in ("core::ptr::write", "core::ptr::write_unaligned", "core::ptr::write_volatile", "core::ptr::mut_ptr::<impl *mut T>::write", "intrinsic:write_via_move", "intrinsic:volatile_store"): m[k] = write
    def forget(e, st, c, args, t, sp): return R(st, UNIT)
    m["core::mem::forget"] = forget
    m["intrinsic:forget"] = forget
    def ptr_copy(rev, nov):
        def h(e, st, c, args, t, sp):
            a, b = (args[1], args[0]) if rev else (args[0], args[1])
            return [("ret", s, UNIT) for s in e.copy_elems(st, a, b, args[2][1], nov, sp)]
        return h
    for w in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
        m["core::ptr::%s::copy_to" % w] = ptr_copy(False, False)
        m["core::ptr::%s::copy_to_nonoverlapping" % w] = ptr_copy(False, True)
    m["core::ptr::mut_ptr::<impl *mut T>::copy_from"] = ptr_copy(True, False)
    m["core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping"] = ptr_copy(True, True)
    m["core::ptr::mut_ptr::<impl *mut T>::swap"] = swap
    # ------------------------------------------------------------- pointer arithmetic
    def off(sign, tag="ptrarith"):
        def h(e, st, c, args, t, sp):
            if args[1][0] != "i": return None
            n = args[1][1]
            return [("ret", s, v) for s, v in e.ptr_offset(st, args[0], n if sign > 0 else -n, sp, tag)]
        return h
    for w in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
        m["core::ptr::%s::offset" % w] = off(1); m["core::ptr::%s::add" % w] = off(1); m["core::ptr::%s::sub" % w] = off(-1)
        m["core::ptr::%s::wrapping_offset" % w] = off(1, None); m["core::ptr::%s::wrapping_add" % w] = off(1, None); m["core::ptr::%s::wrapping_sub" % w] = off(-1, None)
    m["intrinsic:offset"] = off(1); m["intrinsic:arith_offset"] = off(1, None)
    def offset_from(unsigned):
        def h(e, st, c, args, t, sp):
            a, b = args[0], args[1]
            if a[0] in ("p", "f") and b[0] in ("p", "f") and a[1] == b[1]:
                d = st.norm(a[2] - b[2])
                if unsigned: return [("ret", s, I(d)) for s in e.oblige(st, "ub", ge(d), "unsigned pointer distance is not negative", sp)]
                return R(st, I(d))
            return None
        return h
    for w in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
        m["core::ptr::%s::offset_from" % w] = offset_from(False)
        for n in ("sub_ptr", "offset_from_unsigned"): m["core::ptr::%s::%s" % (w, n)] = offset_from(True)
    m["intrinsic:ptr_offset_from"] = offset_from(False); m["intrinsic:ptr_offset_from_unsigned"] = offset_from(True)
    def addr(e, st, c, args, t, sp):
        a = e.addr(args[0])
        if a is None: return None
        return R(st, I(a))
    for w in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"):
        for n in ("addr", "expose_provenance"): m["core::ptr::%s::%s" % (w, n)] = addr
        m["core::ptr::%s::cast_mut" % w] = first; m["core::ptr::%s::cast_const" % w] = first
    def is_null(e, st, c, args, t, sp): 
        if args[0][0] in ("p", "f", "r"): return R(st, B(FALSE))
        return None
    for w in ("const_ptr::<impl *const T>", "mut_ptr::<impl *mut T>"): m["core::ptr::%s::is_null" % w] = is_null
    def transmute(e, st, c, args, t, sp):
        a = tyargs(c)
        return [("ret", s, v) for s, v in e.transmute(st, args[0], a[0], a[1])]
    m["intrinsic:transmute"] = transmute; m["intrinsic:transmute_unchecked"] = transmute
    # ------------------------------------------------------------- slices
    def fat(v): return v[0] == "f"
    def s_len(e, st, c, args, t, sp):
        if fat(args[0]): return R(st, I(st.norm(args[0][3])))
        if args[0][0] == "str": return R(st, I(e.fresh(st, "strlen")))
        return None
    m["core::slice::<impl [T]>::len"] = s_len
    def s_empty(e, st, c, args, t, sp):
        if fat(args[0]): return R(st, B(eq(st.norm(args[0][3]))))
        return None
    m["core::slice::<impl [T]>::is_empty"] = s_empty
    def s_ptr(e, st, c, args, t, sp):
        if fat(args[0]): return R(st, ("p", args[0][1], args[0][2]))
        return None
    for n in ("as_ptr", "as_mut_ptr"): m["core::slice::<impl [T]>::" + n] = s_ptr
    def get_unchecked(mut):
        def h(e, st, c, args, t, sp):
            if not fat(args[0]) or args[1][0] != "i": return None
            _, rid, o, n = args[0]
            x = args[1][1]
            out = []
            f = f_and(ge(x), ge(n - x - 1))
            for s in e.oblige(st, "access", f, "get_unchecked(%r) within a slice of length %r" % (st.norm(x), st.norm(n)), sp):
                for s2 in e.access(s, rid, o + x, ONE, "mutref" if mut else "ref", sp): out.append(("ret", s2, ("p", rid, s2.norm(o + x))))
            return out
        return h
    m["core::slice::<impl [T]>::get_unchecked"] = get_unchecked(False)
    m["core::slice::<impl [T]>::get_unchecked_mut"] = get_unchecked(True)
    def from_raw(mut):
        def h(e, st, c, args, t, sp):
            p, n = args[0], args[1]
            if p[0] == "f": p = ("p", p[1], p[2])
            if p[0] != "p" or n[0] != "i": return None
            return [("ret", s, ("f", p[1], s.norm(p[2]), s.norm(n[1]))) for s in e.access(st, p[1], p[2], n[1], "mutref" if mut else "ref", sp)]
        return h
    m["core::slice::raw::from_raw_parts"] = from_raw(False); m["core::slice::raw::from_raw_parts_mut"] = from_raw(True)
    def raw_slice(e, st, c, args, t, sp):
        p, n = args[0], args[1]
        if p[0] != "p": return None
        return R(st, ("f", p[1], p[2], n[1]))
    m["core::ptr::slice_from_raw_parts"] = raw_slice; m["core::ptr::slice_from_raw_parts_mut"] = raw_slice
    def s_swap(e, st, c, args, t, sp):
        if not fat(args[0]) or args[1][0] != "i" or args[2][0] != "i": return None
        _, rid, o, n = args[0]
        a, b = args[1][1], args[2][1]
        f = f_and(ge(n - a - 1), ge(n - b - 1))
        out = []
        for s in st.sat_states(f_not(f)): out.append(("panic", s, ("index out of bounds", sp, tuple(e.stack))))
        for s in st.sat_states(f):
            out += [("ret", x, UNIT) for x in e.swap_places(s, ("p", rid, o + a), ("p", rid, o + b), sp)]
        return out
    m["core::slice::<impl [T]>::swap"] = s_swap
    def s_rot(right):
        def h(e, st, c, args, t, sp):
            if not fat(args[0]) or args[1][0] != "i": return None
            _, rid, o, n = args[0]
            k = args[1][1]
            out = []
            for s in st.sat_states(ge(k - n - 1)): out.append(("panic", s, ("rotate past the end", sp, tuple(e.stack))))
            for s in st.sat_states(ge(n - k)):
                mid = n - k if right else k
                for s1 in e.access(s, rid, o, n, "mutref", sp):
                    for ra in e.take(s1, rid, o, o + mid):
                        for rb in e.take(ra[0], rid, o + mid, o + n):
                            segs = tuple(rb[1]) + tuple((a + (n - mid), b + (n - mid), e.rebase(src, -(n - mid))) for a, b, src in ra[1])
                            out += [("ret", x, UNIT) for x in e.paste(rb[0], rid, o, o + n, segs)]
            return out
        return h
    m["core::slice::rotate::<impl [T]>::rotate_right"] = m["core::slice::<impl [T]>::rotate_right"] = s_rot(True)
    m["core::slice::rotate::<impl [T]>::rotate_left"] = m["core::slice::<impl [T]>::rotate_left"] = s_rot(False)
    def block_swap(e, st, a, b, n, sp, what):
        """exchange n elements at two places (pointers); the blocks must not overlap"""
        out = []
        for s in e.access(st, a[1], a[2], n, "mutref", sp):
            for s1 in e.access(s, b[1], b[2], n, "mutref", sp):
                f = f_or(ge(a[2] - b[2] - n), ge(b[2] - a[2] - n)) if a[1] == b[1] else TRUE
                for s2 in e.oblige(s1, "access", f, "%s: the blocks are disjoint" % what, sp):
                    for ra in e.take(s2, a[1], a[2], a[2] + n):
                        for rb in e.take(ra[0], b[1], b[2], b[2] + n):
                            for s3 in e.paste(rb[0], a[1], a[2], a[2] + n, rb[1]):
                                out += [("ret", s4, UNIT) for s4 in e.paste(s3, b[1], b[2], b[2] + n, ra[1])]
        return out
    def s_swapwith(e, st, c, args, t, sp):
        a, b = args[0], args[1]
        if not fat(a) or not fat(b): return None
        out = []
        for s in st.sat_states(ge(a[3] - b[3] - 1)) + st.sat_states(ge(b[3] - a[3] - 1)): out.append(("panic", s, ("swap_with_slice of different lengths", sp, tuple(e.stack))))
        for s in st.sat_states(eq(a[3] - b[3])): out += block_swap(e, s, ("p", a[1], a[2]), ("p", b[1], b[2]), a[3], sp, "swap_with_slice")
        return out
    m["core::slice::<impl [T]>::swap_with_slice"] = s_swapwith
    def p_swapnon(e, st, c, args, t, sp):
        a, b = args[0], args[1]
        if a[0] == "f": a = ("p", a[1], a[2])
        if b[0] == "f": b = ("p", b[1], b[2])
        if a[0] != "p" or b[0] != "p" or args[2][0] != "i": return None
        return block_swap(e, st, a, b, args[2][1], sp, "swap_nonoverlapping")
    m["core::ptr::swap_nonoverlapping"] = p_swapnon
    def s_perm(e, st, c, args, t, sp):
        """reverse and the sorts: some permutation (the comparison may panic in between)"""
        if not fat(args[0]): return None
        _, rid, o, n = args[0]
        out = []
        for s in e.access(st, rid, o, n, "mutref", sp):
            for s2 in e.permute(s, rid, o, n):
                s2.approx = s2.approx | {"slice permutation"}
                if e.unwind and len(args) > 1: out.append(("unwind", s2.fork(), "comparison"))
                out.append(("ret", s2, UNIT))
        return out
    for n in ("reverse", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key"): m["core::slice::<impl [T]>::" + n] = s_perm
    for n in ("sort", "sort_by", "sort_by_key"): m["alloc::slice::<impl [T]>::" + n] = s_perm
    def split_at(unchecked):
        def h(e, st, c, args, t, sp):
            if not fat(args[0]) or args[1][0] != "i": return None
            _, rid, o, n = args[0]
            k = args[1][1]
            out = []
            f = ge(n - k)
            if unchecked: sts = e.oblige(st, "access", f, "split_at_unchecked within the slice", sp)
            else:
                for s in st.sat_states(f_not(f)): out.append(("panic", s, ("split_at out of bounds", sp, tuple(e.stack))))
                sts = st.sat_states(f)
            for s in sts: out.append(("ret", s, ("s", (("f", rid, o, s.norm(k)), ("f", rid, s.norm(o + k), s.norm(n - k))))))
            return out
        return h
    for n in ("split_at", "split_at_mut"):
        m["core::slice::<impl [T]>::" + n] = split_at(False); m["core::slice::<impl [T]>::" + n + "_unchecked"] = split_at(True)
    # ------------------------------------------------------------- slice iterators: ('it'|'itm', rid, lo, hi)
    def s_iter(kind):
        def h(e, st, c, args, t, sp):
            if not fat(args[0]): return None
            return R(st, (kind, args[0][1], args[0][2], st.norm(args[0][2] + args[0][3])))
        return h
    for k in ("core::slice::<impl [T]>::iter", "core::slice::iter::Iter::<'a, T>::new", "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter"): m[k] = s_iter("it")
    for k in ("core::slice::<impl [T]>::iter_mut", "core::slice::iter::IterMut::<'a, T>::new", "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter"): m[k] = s_iter("itm")
    def itat(e, st, v):
        """iterator lvalue and value behind a reference"""
        if v[0] == "r":
            x = e.get(st.mem[v[1]], v[2])
            n = 0
            while x[0] == "r" and n < 5: v = x; x = e.get(st.mem[v[1]], v[2]); n += 1
            if x[0] in ("it", "itm"): return ("cell", v[1], v[2]), x
        return None, None
    def it_next(back):
        def h(e, st, c, args, t, sp):
            lv, x = itat(e, st, args[0])
            if x is None: return None
            k, rid, lo, hi = x
            out = []
            for s in st.sat_states(ge(lo - hi)): 
                e.note(s, sp, "iterator exhausted")
                out.append(("ret", s, NONE))
            for s in st.sat_states(ge(hi - lo - 1)):
                pos = s.norm(hi - 1 if back else lo)
                for s2 in e.access(s, rid, pos, ONE, "mutref" if k == "itm" else "ref", sp):
                    nv = (k, rid, lo, pos) if back else (k, rid, s2.norm(lo + 1), hi)
                    for s3 in e.write(s2, lv, nv): out.append(("ret", s3, some(("p", rid, pos))))
            return out
        return h
    def it_len(e, st, c, args, t, sp):
        lv, x = itat(e, st, args[0])
        if x is None: return None
        return R(st, I(st.norm(x[3] - x[2])))
    def it_hint(e, st, c, args, t, sp):
        lv, x = itat(e, st, args[0])
        if x is None: return None
        n = I(st.norm(x[3] - x[2]))
        return R(st, ("s", (n, some(n))))
    def it_get(e, st, c, args, t, sp):
        lv, x = itat(e, st, args[0])
        if x is None or args[1][0] != "i": return None
        k, rid, lo, hi = x
        i = args[1][1]
        out = []
        for s in e.oblige(st, "access", f_and(ge(i), ge(hi - lo - i - 1)), "iterator random access within the slice", sp):
            for s2 in e.access(s, rid, lo + i, ONE, "mutref" if k == "itm" else "ref", sp): out.append(("ret", s2, ("p", rid, s2.norm(lo + i))))
        return out
    def it_slice(e, st, c, args, t, sp):
        lv, x = itat(e, st, args[0])
        if x is None:
            x = args[0] if args[0][0] in ("it", "itm") else None
        if x is None: return None
        return R(st, ("f", x[1], x[2], st.norm(x[3] - x[2])))
    def it_nth(back):
        def h(e, st, c, args, t, sp):
            lv, x = itat(e, st, args[0])
            if x is None or args[1][0] != "i": return None
            k, rid, lo, hi = x
            n = args[1][1]
            out = []
            for s in st.sat_states(ge(n - (hi - lo))):
                for s3 in e.write(s, lv, (k, rid, hi, hi) if not back else (k, rid, lo, lo)): out.append(("ret", s3, NONE))
            for s in st.sat_states(ge(hi - lo - n - 1)):
                pos = s.norm(hi - 1 - n if back else lo + n)
                for s2 in e.access(s, rid, pos, ONE, "mutref" if k == "itm" else "ref", sp):
                    for s3 in e.write(s2, lv, (k, rid, lo, pos) if back else (k, rid, s2.norm(pos + 1), hi)): out.append(("ret", s3, some(("p", rid, pos))))
            return out
        return h
    for nm in ("Iter", "IterMut"):
        A = "<core::slice::iter::%s<'a, T> as core::iter::traits::" % nm
        m[A + "iterator::Iterator>::next"] = it_next(False)
        m[A + "double_ended::DoubleEndedIterator>::next_back"] = it_next(True)
        m[A + "iterator::Iterator>::nth"] = it_nth(False)
        m[A + "double_ended::DoubleEndedIterator>::nth_back"] = it_nth(True)
        m[A + "iterator::Iterator>::size_hint"] = it_hint
        m[A + "exact_size::ExactSizeIterator>::len"] = it_len
        m["<core::slice::iter::%s<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len" % nm] = it_len
        m[A + "iterator::Iterator>::count"] = None
        m.pop(A + "iterator::Iterator>::count")
        m[A + "iterator::Iterator>::__iterator_get_unchecked"] = it_get
        m["core::slice::iter::%s::<'a, T>::as_slice" % nm] = it_slice
    m["core::slice::iter::IterMut::<'a, T>::into_slice"] = it_slice
    m["<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone"] = lambda e, st, c, args, t, sp: (R(st, itat(e, st, args[0])[1]) if itat(e, st, args[0])[1] else None)
    # ------------------------------------------------------------- vectors: ('vec', rid)
    def v_len(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        return R(st, I(st.regs[v[1]].len)) if v else None
    def v_slice(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        return R(st, ("f", v[1], ZERO, st.regs[v[1]].len)) if v else None
    def v_ptr(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        return R(st, ("p", v[1], ZERO)) if v else None
    V = "alloc::vec::Vec::<T, A>::"
    m[V + "len"] = v_len
    m[V + "is_empty"] = lambda e, st, c, args, t, sp: (R(st, B(eq(st.regs[vecval(e, st, args[0])[1]].len))) if vecval(e, st, args[0]) else None)
    for k in (V + "as_slice", V + "as_mut_slice", "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut"): m[k] = v_slice
    for k in (V + "as_ptr", V + "as_mut_ptr"): m[k] = v_ptr
    def grow(st, rid, newlen, segs):
        st.regs[rid] = Reg(newlen, segs)
    def v_insert(push):
        def h(e, st, c, args, t, sp):
            v = vecval(e, st, args[0])
            if not v: return None
            rid = v[1]
            n = st.regs[rid].len
            out = []
            x = args[-1]
            i = n if push else args[1][1]
            if not push:
                for s in st.sat_states(ge(i - n - 1)): out.append(("panic", s, ("insertion index past the end", sp, tuple(e.stack))))
                sts = st.sat_states(ge(n - i))
            else: sts = [st]
            for s in sts:
                if e.ri[rid].perm != "mut":
                    e.oblige(s, "perm", FALSE, "a shared vector is modified", sp); continue
                # allocation failure and capacity overflow are outside the model
                s.add_ge(IMAX - n - 1)
                if s.dead: continue
                for r in e.take(s, rid, i, n):
                    s2 = r[0]
                    j = r[2]
                    keep = s2.regs[rid].segs[:j]
                    tail = tuple((a + i + 1, b + i + 1, e.rebase(src, -(i + 1))) for a, b, src in r[1])
                    grow(s2, rid, s2.norm(n + 1), keep + ((i, i + 1, ("t", x)),) + tail)
                    s2.gh["#grown"] = s2.gh.get("#grown", ()) + ((rid, i, x),)
                    out.append(("ret", s2, UNIT))
            return out
        return h
    m[V + "push"] = v_insert(True); m[V + "insert"] = v_insert(False)
    def v_mut(e, st, rid, sp):
        if e.ri[rid].perm != "mut": e.oblige(st, "perm", FALSE, "a shared vector is modified", sp); return False
        return True
    def cut(e, st, rid, lo, hi):
        """[(st, segments removed)]: elements [lo, hi) taken out, the rest moves up"""
        out = []
        for r in e.take(st, rid, lo, hi):
            s, i, j = r[0], r[2], r[3]
            segs = s.regs[rid].segs; d = s.norm(hi - lo)
            tail = tuple((s.norm(a - d), s.norm(b - d), e.rebase(src, d)) for a, b, src in segs[j:])
            s.regs[rid] = Reg(s.norm(s.regs[rid].len - d), segs[:i] + tail)
            out.append((s, r[1]))
        return out
    def v_pop(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        if not v or not v_mut(e, st, v[1], sp): return None if not v else []
        rid = v[1]; n = st.regs[rid].len
        out = [("ret", s, NONE) for s in st.sat_states(eq(n))]
        for s in st.sat_states(ge(n - 1)):
            for s1, tok in e.content_at(s, rid, s.norm(n - 1)):
                for s2, _ in cut(e, s1, rid, s1.norm(n - 1), n): out.append(("ret", s2, some(tok)))
        return out
    def v_remove(swap_):
        def h(e, st, c, args, t, sp):
            v = vecval(e, st, args[0])
            if not v or args[1][0] != "i": return None
            if not v_mut(e, st, v[1], sp): return []
            rid = v[1]; n = st.regs[rid].len; i = args[1][1]
            out = [("panic", s, ("removal index out of bounds", sp, tuple(e.stack))) for s in st.sat_states(ge(i - n))]
            for s in st.sat_states(ge(n - i - 1)):
                for s1, tok in e.content_at(s, rid, i):
                    if not swap_:
                        for s2, _ in cut(e, s1, rid, i, s1.norm(i + 1)): out.append(("ret", s2, tok))
                        continue
                    for s2, last in e.content_at(s1, rid, s1.norm(n - 1)):
                        for s3 in e.store_tok(s2, rid, i, last):
                            for s4, _ in cut(e, s3, rid, s3.norm(n - 1), n): out.append(("ret", s4, tok))
            return out
        return h
    def v_truncate(clear):
        def h(e, st, c, args, t, sp):
            v = vecval(e, st, args[0])
            if not v: return None
            if not v_mut(e, st, v[1], sp): return []
            rid = v[1]; n = st.regs[rid].len; k = ZERO if clear else args[1][1]
            out = [("ret", s, UNIT) for s in st.sat_states(ge(k - n))]
            for s in st.sat_states(ge(n - k - 1)):
                for s2, gone in cut(e, s, rid, k, n):
                    s2.drops = s2.drops + (("o", "tok", "range", gone),)
                    out.append(("ret", s2, UNIT))
            return out
        return h
    def v_setlen(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        if not v or args[1][0] != "i": return None
        if not v_mut(e, st, v[1], sp): return []
        rid = v[1]; n = st.regs[rid].len; k = args[1][1]
        out = [("ret", s2, UNIT) for s in st.sat_states(ge(n - k)) for s2, _ in cut(e, s, rid, k, n)]
        for s in st.sat_states(ge(k - n - 1)):
            for s1 in e.oblige(s, "ub", ge(v_capacity(e, s, rid) - k), "set_len within the capacity", sp):
                s1.approx = s1.approx | {"set_len"}
                s1.regs[rid] = Reg(k, s1.regs[rid].segs + ((n, k, ("v", e.newver("uninit"), -n)),))
                out.append(("ret", s1, UNIT))
        return out
    def v_capacity(e, st, rid):
        d = dict(st.gh.get("#cap") or ())
        if rid not in d:
            k = e.fresh(st, "capacity"); st.add_ge(k - st.regs[rid].len); st.add_ge(IMAX - k)
            d[rid] = k; st.gh["#cap"] = tuple(sorted(d.items()))
        k = d[rid]
        if not st.entails_ge(k - st.regs[rid].len):      # it may have grown since
            k = e.fresh(st, "capacity"); st.add_ge(k - st.regs[rid].len); st.add_ge(IMAX - k)
            d[rid] = k; st.gh["#cap"] = tuple(sorted(d.items()))
        return k
    def v_cap(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        return R(st, I(v_capacity(e, st, v[1]))) if v else None
    def v_reserve(e, st, c, args, t, sp):
        v = vecval(e, st, args[0])
        if not v: return None
        st.gh["#cap"] = tuple(x for x in (st.gh.get("#cap") or ()) if x[0] != v[1])
        return R(st, UNIT)
    m[V + "pop"] = v_pop; m[V + "remove"] = v_remove(False); m[V + "swap_remove"] = v_remove(True)
    m[V + "truncate"] = v_truncate(False); m[V + "clear"] = v_truncate(True); m[V + "set_len"] = v_setlen; m[V + "capacity"] = v_cap
    def v_shrink(what):
        def h(e, st, c, args, t, sp):
            v = vecval(e, st, args[0])
            if not v: return None
            rid = v[1]; n = st.regs[rid].len
            k = e.fresh(st, "newlen")
            if what not in ("resize", "resize_with", "append"): st.add_ge(n - k)
            st.regs[rid] = Reg(k, ((ZERO, k, ("v", e.newver(what), ZERO)),))
            st.approx = st.approx | {"Vec::" + what}
            return [("ret", s, x) for s, x in e.havoc(st, t["dt"], what)]
        return h
    for n in ("drain", "retain", "split_off", "dedup", "resize", "resize_with", "append"): m[V + n] = v_shrink(n)
    for n in ("reserve", "reserve_exact", "shrink_to_fit"): m[V + n] = v_reserve
    # ------------------------------------------------------------- contracts of the storage traits on type parameters
    CT = "indexing::container_traits::"
    def arr(e, st, v):
        v = storage(e, st, v)
        return v[1] if v is not None and v[0] == "arr" else None
    def on_arr(f):
        def h(e, st, c, args, t, sp):
            rid = arr(e, st, args[0])
            if rid is None: return None
            return f(e, st, rid, args, t, sp)
        return h
    m[CT + "Trustworthy#base_len"] = on_arr(lambda e, st, rid, args, t, sp: R(st, I(st.regs[rid].len)))
    for n in ("begin", "begin_mut"):
        m[CT + ("Contiguous#" if n == "begin" else "ContiguousMut#") + n] = on_arr(lambda e, st, rid, args, t, sp: R(st, ("p", rid, ZERO)))
    for n in ("end", "end_mut"):
        m[CT + ("Contiguous#" if n == "end" else "ContiguousMut#") + n] = on_arr(lambda e, st, rid, args, t, sp: R(st, ("p", rid, st.regs[rid].len)))
    m[CT + "Contiguous#as_slice"] = on_arr(lambda e, st, rid, args, t, sp: [("ret", s, ("f", rid, ZERO, s.regs[rid].len)) for s in e.access(st, rid, ZERO, st.regs[rid].len, "ref", sp)])
    m[CT + "ContiguousMut#as_mut_slice"] = on_arr(lambda e, st, rid, args, t, sp: [("ret", s, ("f", rid, ZERO, s.regs[rid].len)) for s in e.access(st, rid, ZERO, st.regs[rid].len, "mutref", sp)])
    m[CT + "GetUnchecked#xget_unchecked"] = on_arr(lambda e, st, rid, args, t, sp: [("ret", s, ("p", rid, s.norm(args[1][1]))) for s in e.access(st, rid, args[1][1], ONE, "ref", sp)])
    m[CT + "GetUncheckedMut#xget_unchecked_mut"] = on_arr(lambda e, st, rid, args, t, sp: [("ret", s, ("p", rid, s.norm(args[1][1]))) for s in e.access(st, rid, args[1][1], ONE, "mutref", sp)])
    def p_push(e, st, rid, args, t, sp):
        n = st.regs[rid].len
        st.add_ge(IMAX - n - 1)
        if st.dead: return []
        r = st.regs[rid]
        st.regs[rid] = Reg(st.norm(n + 1), r.segs + ((n, n + 1, ("t", args[1])),))
        st.gh["#grown"] = st.gh.get("#grown", ()) + ((rid, n, args[1]),)
        return R(st, I(n))
    m[CT + "Pushable#push"] = on_arr(p_push)
    def p_insert(e, st, rid, args, t, sp):
        n = st.regs[rid].len; i = args[1][1]
        out = []
        for s in e.oblige(st, "access", f_and(ge(i), ge(n - i)), "insert_unchecked at %r within length %r" % (st.norm(i), n), sp):
            s.add_ge(IMAX - n - 1)
            if s.dead: continue
            for r in e.take(s, rid, i, n):
                s2 = r[0]
                keep = s2.regs[rid].segs[:r[2]]
                tail = tuple((a + i + 1, b + i + 1, e.rebase(src, -(i + 1))) for a, b, src in r[1])
                s2.regs[rid] = Reg(s2.norm(n + 1), keep + ((i, i + 1, ("t", args[2])),) + tail)
                s2.gh["#grown"] = s2.gh.get("#grown", ()) + ((rid, i, args[2]),)
                out.append(("ret", s2, UNIT))
        return out
    m[CT + "Pushable#insert_unchecked"] = on_arr(p_insert)
    def clone_arr(e, st, c, args, t, sp):
        rid = arr(e, st, args[0])
        if rid is None:
            v = storage(e, st, args[0])
            if v is not None and v[0] in ("o", "i", "b") and c.get("kind") == "unresolved": return None
            return None
        # a clone of a fixed-length storage has the same length; its elements may be different storage
        st.gh["#cloned"] = st.gh.get("#cloned", ()) + (rid,)
        return R(st, ("arr", rid))
    m["core::clone::Clone#clone"] = clone_arr
    # ------------------------------------------------------------- contracts of the range traits on type parameters
    def opr(which):
        def h(e, st, c, args, t, sp):
            v = storage(e, st, args[0])
            if v is None or v[0] != "opr": return None
            if v[1] == ("from" if which == "start" else "to"): return R(st, some(v[2]))
            return R(st, NONE)
        return h
    m[CT + "IndexRange#start"] = opr("start"); m[CT + "IndexRange#end"] = opr("end")
    def icr(e, st, c, args, t, sp):
        v = args[0]
        if v[0] != "icr": return None
        out = []
        for s in st.sat_states(v[1]): out.append(("ret", s, ("e", 0, (v[2],))))
        tt = e.ty[t["dt"]]
        for s in st.sat_states(f_not(v[1])):
            for s2, er in e.havoc(s, tt["variants"][1]["f"][0]["t"], "err"): out.append(("ret", s2, ("e", 1, (er,))))
        return out
    m["indexing::indexing::IntoCheckedRange#into"] = icr
    PT = "indexing::pointer::"
    def prg(which):
        def h(e, st, c, args, t, sp):
            v = storage(e, st, args[0])
            if v is None or v[0] != "prg": return None
            rid, lo, hi = v[1:]
            if which == "len": return R(st, I(st.norm(hi - lo)))
            return R(st, e.mk_pindex(t["dt"], ("p", rid, lo if which == "first" else hi)))
        return h
    for n in ("first", "end", "len"): m[PT + "PointerRange#" + n] = prg(n)
    def cref(e, st, c, args, t, sp):
        info = e.tparams.get(c.get("self"))
        if info is None or info[0] != "cref": return None
        p = args[0]
        if p[0] == "f": p = ("p", p[1], p[2])
        if p[0] != "p": return None
        out = []
        f = TRUE if p[1] == info[1] else FALSE
        for s in e.oblige(st, "access", f, "the pointer dereferenced belongs to the container the reference type names", sp):
            for s2 in e.access(s, p[1], p[2], ONE, "mutref" if info[2] else "ref", sp): out.append(("ret", s2, p))
        return out
    m[PT + "ContainerRef#dereference"] = cref
    # ------------------------------------------------------------- debug-only precondition checks of core
    e.skip_suffix = ("::precondition_check",)

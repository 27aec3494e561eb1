"""Compile-fail witnesses, each with a compiling twin that differs only in the offending part.
(id, property, offending program, twin, what it would mean if the offending program compiled)
Programs see the crate as a downstream user does. `$` separates: body(bad) and body(good) share PRE."""
PRE = """#![allow(unused, dead_code)]
extern crate indexing;
use indexing::{scope, Index, Range, Container, NonEmpty, Unknown};
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
"""
PPTR = PRE + "use indexing::pointer::*;\n"
W = []
def w(prop, id, bad, good, what, pre=PRE): W.append({"id": id, "prop": prop, "bad": pre + bad, "good": pre + good, "what": what})
def fn(body): return "fn main() {\n%s\n}\n" % body

# ---------------------------------------------------------------- C01 brands cannot be converted
BR = [("Index<{0}, NonEmpty>", PRE), ("Index<{0}, Unknown>", PRE), ("Range<{0}, NonEmpty>", PRE), ("Range<{0}, Unknown>", PRE), ("indexing::indexing::RangeIter<{0}>", PRE), ("indexing::indexing::Subdivide<{0}>", PRE),
      ("PIndex<{0}, u8, NonEmpty>", PPTR), ("PIndex<{0}, u8, Unknown>", PPTR), ("PRange<{0}, u8, NonEmpty>", PPTR), ("PRange<{0}, u8, Unknown>", PPTR), ("PSlice<{0}, u8, NonEmpty>", PPTR), ("PSlice<{0}, u8, Unknown>", PPTR), ("PRangeIter<{0}, u8>", PPTR),
      ("Container<{0}, &'static [u8]>", PRE), ("Container<{0}, Vec<u8>>", PRE), ("Container<{0}, &'static [u8], OnlyIndex>", PRE)]
for t, pre in BR:
    n = t.split("<")[0].rsplit("::", 1)[-1]
    a, b = t.format("'a"), t.format("'b")
    for kind, src, dst in (("shortened", b, a), ("lengthened", a, b)):
        w("C01", "brand of %s can be %s" % (t.format("'id"), kind), "fn f<'a, 'b: 'a>(x: %s) -> %s { x }\nfn main() {}\n" % (src, dst), "fn f<'a, 'b: 'a>(x: %s) -> %s { x }\nfn main() {}\n" % (src, src), "the brand is not invariant", pre)
# particles cannot leave the closure
for what, ex in (("an index", "c.vet(0).unwrap()"), ("a range", "c.range()"), ("a range iterator", "c.range().into_iter()"), ("a subdivision", "c.range().subdivide(2)"), ("the container", "c")):
    w("C01", "%s is returned from the scope" % what, fn("let a = [1u8, 2]; let _ = scope(&a[..], |c| { %s });" % ex), fn("let a = [1u8, 2]; let _ = scope(&a[..], |c| { let _x = %s; });" % ex), "a particle leaves its scope")
for what, ex in (("an index", "c.vet(0).unwrap()"), ("a range", "c.range()"), ("the container", "c")):
    w("C01", "%s is stored outside the scope" % what, fn("let a = [1u8, 2]; let mut o = None; scope(&a[..], |c| { o = Some(%s); });" % ex), fn("let a = [1u8, 2]; let mut o = None; scope(&a[..], |c| { let _x = %s; o = Some(1u8); });" % ex), "a particle leaves its scope")
for what, ex in (("a pointer index", "c.pointer_range().first()"), ("a pointer range", "c.pointer_range()"), ("a pointer slice", "c.pointer_slice()")):
    w("C01", "%s is returned from the scope" % what, fn("let a = [1u8, 2]; let _ = scope(&a[..], |c| { %s });" % ex), fn("let a = [1u8, 2]; let _ = scope(&a[..], |c| { let _x = %s; });" % ex), "a pointer particle leaves its scope", PPTR)
# two scopes: every way of using a particle with the wrong container
two = "let a = [1u8, 2]; let b = vec![3u8, 4, 5]; let b2 = b.clone(); scope(&a[..], |c| { let mut bb = b2; scope(&mut bb[..], |mut d| { let mut i = {0}.vet(0).unwrap(); let r = {0}.range(); let n = r.nonempty().unwrap(); let i2 = d.vet(0).unwrap(); let r2 = d.range(); {1}; }); });"
USE = ["let _ = &d[i]", "d[i] = 1", "let _ = &d[r]", "let _ = &mut d[r]", "let _ = &d[i..]", "let _ = &d[..i]", "d.split_at(i)", "d.split_after(i)", "d.split_around(r)", "d.before(i)", "d.after(i)", "d.range_of(i..)", "d.forward(&mut i)", "d.forward_by(&mut i, 1)",
       "d.forward_range_by(r, 1)", "d.backward(&mut i)", "d.scan_from(i, |_| true)", "d.scan_from_rev(i, |_| true)", "d.scan_range(r, |_| true)", "d.swap(i, i2)", "d.swap(i2, i)", "d.rotate1_up(r)", "d.rotate1_down(n)", "d.index_twice(r, r2)", "d.index_twice(r2, r)",
       "d.zip_mut_raw(r, r2, |_, _| ())", "d.zip_mut_raw(r2, r, |_, _| ())", "r2.join(r)", "r2.join_cover(r)", "r2.join_cover_both(r)", "let mut j = i2; r.forward_by(&mut j, 1)", "let mut j = r2.first(); let _x = [r2.first(), r.first()]"]
for u in USE:
    w("C01", "a particle of another scope is accepted: " + u, fn(two.replace("{0}", "c").replace("{1}", u)), fn(two.replace("{0}", "d").replace("{1}", u)), "a particle is accepted by a foreign container")
ptwo = "let a = [1u8, 2]; let mut b = vec![3u8, 4, 5]; scope(&a[..], |c| { scope(&mut b[..], |mut d| { let r = {0}.pointer_range(); let n = r.nonempty().unwrap(); let i = n.first(); let s = {0}.pointer_slice(); let r2 = d.pointer_range(); let n2 = r2.nonempty().unwrap(); let i2 = n2.first(); {1}; }); });"
PUSE = ["let _ = &d[i]", "let _ = &d[r]", "let _ = &mut d[r]", "let _ = &d[i..]", "let _ = &d[..i]", "let _ = &mut d[i..]", "d.pointer_range_of(i..)", "d.nonempty_range(i, i2)", "d.nonempty_range(i2, i)", "d.distance_to(i)", "d.scan_tail_(i, |_| true)", "d.scan_pointer_range(r, |_| true)",
        "d.split_at_pointer(i)", "d.scan_pointer_range_rev(r, |_| true)", "d.split_container_at_pointer(i, |_, _, _, _| ())", "d.rotate1_prange(n)", "d.swap_ptr(i, i2)", "d.swap_ptr(i2, i)", "zip(r, &d, r2, &d, |_, _| ())", "zip(s, &d, r2, &d, |_, _| ())"]
for u in PUSE:
    w("C01", "a pointer particle of another scope is accepted: " + u, fn(ptwo.replace("{0}", "c").replace("{1}", u)), fn(ptwo.replace("{0}", "d").replace("{1}", u)), "a pointer particle is accepted by a foreign container", PPTR)
w("C01", "the twin accepts pointer particles", fn("let a = [1u8, 2]; let b = [3u8, 4]; scope(&a[..], |c| { let r = c.pointer_range(); let t = c.make_twin(&b[..]).unwrap(); let _ = &t[r]; });"),
  fn("let a = [1u8, 2]; let b = [3u8, 4]; scope(&a[..], |c| { let r = c.range(); let t = c.make_twin(&b[..]).unwrap(); let _ = &t[r]; });"), "a pointer into one storage is accepted by another", PPTR)
w("C01", "split containers share a brand", fn("let mut a = [1u8, 2, 3]; scope(&mut a[..], |mut c| { let i = c.pointer_range().nonempty().unwrap().upper_middle(); c.split_container_at_pointer(i, |x, rx, y, ry| { let _ = &y[rx]; }); });"),
  fn("let mut a = [1u8, 2, 3]; scope(&mut a[..], |mut c| { let i = c.pointer_range().nonempty().unwrap().upper_middle(); c.split_container_at_pointer(i, |x, rx, y, ry| { let _ = &y[ry]; }); });"), "the two parts accept each other's pointers", PPTR)
for t, flds in (("Index<'static>", None), ("Range<'static>", None)):
    w("C01", "%s has a default value" % t, fn("let _x: %s = Default::default();" % t), fn("let _x: u8 = Default::default();"), "a particle is made from nothing")
    w("C01", "%s is made from integers" % t, "fn f<T: From<usize>>() {}\nfn main() { f::<%s>(); }\n" % t, "fn f<T: From<usize>>() {}\nfn main() { f::<usize>(); }\n", "a particle is made from an integer")
# ---------------------------------------------------------------- C03 proofs are needed
E = "let a = [1u8, 2]; scope(&a[..], |c| { let r = c.range(); let {0}; {1}; });"
for what, bad, good, use in (
    ("dereferencing an edge index", "i = r.past_the_end()", "i = r.nonempty().unwrap().first()", "let _ = c[i]"),
    ("dereferencing the first index of a possibly empty range", "i = r.first()", "i = r.nonempty().unwrap().first()", "let _ = c[i]"),
    ("last of a possibly empty range", "x = r", "x = r.nonempty().unwrap()", "x.last()"),
    ("tail of a possibly empty range", "x = r", "x = r.nonempty().unwrap()", "x.tail()"),
    ("init of a possibly empty range", "x = r", "x = r.nonempty().unwrap()", "x.init()"),
    ("lower_middle dereferenced for a possibly empty range", "i = r.upper_middle()", "i = r.nonempty().unwrap().upper_middle()", "let _ = c[i]"),
    ("advance on a possibly empty range", "mut x = r", "mut x = r.nonempty().unwrap()", "x.advance()"),
    ("advance_back on a possibly empty range", "mut x = r", "mut x = r.nonempty().unwrap()", "x.advance_back()"),
    ("split_after at an edge index", "i = r.past_the_end()", "i = r.nonempty().unwrap().first()", "c.split_after(i)"),
    ("scan_from an edge index", "i = r.past_the_end()", "i = r.nonempty().unwrap().first()", "c.scan_from(i, |_| true)"),
    ("scan_from_rev an edge index", "i = r.past_the_end()", "i = r.nonempty().unwrap().first()", "c.scan_from_rev(i, |_| true)"),
    ("after an edge index", "i = r.past_the_end()", "i = r.nonempty().unwrap().first()", "c.after(i)"),
    ("forward from an edge index", "mut i = r.past_the_end()", "mut i = r.nonempty().unwrap().first()", "c.forward(&mut i)"),
    ("join of two possibly empty ranges is nonempty", "x = r.join(r).unwrap()", "x = r.nonempty().unwrap()", "let _y: Range<NonEmpty> = x"),
    ("join_cover keeps the proof of self only", "x = r.join_cover(r.nonempty().unwrap())", "x = r.nonempty().unwrap().join_cover(r)", "let _y: Range<NonEmpty> = x"),
    ("join_cover_both of possibly empty ranges is nonempty", "x = r.join_cover_both(r)", "x = r.nonempty().unwrap().join_cover_both(r)", "let _y: Range<NonEmpty> = x"),
    ("the first half of a split is nonempty", "x = r.nonempty().unwrap().split_in_half().0", "x = r.nonempty().unwrap().split_in_half().1", "let _y: Range<NonEmpty> = x"),
    ):
    w("C03", "compiles without a proof: " + what, fn(E.replace("{0}", bad).replace("{1}", use)), fn(E.replace("{0}", good).replace("{1}", use)), "an operation that needs an element is allowed without one")
# ---------------------------------------------------------------- C05 mutation
MUT = ["let (r, n, i) = {p}; d[i] = 1", "let (r, n, i) = {p}; let _ = &mut d[r]", "let (r, n, i) = {p}; let _ = &mut d[i..]", "let (r, n, i) = {p}; let _ = &mut d[..i]", "let _ = &mut d[..]", "let (r, n, i) = {p}; d.swap(i, i)", "let (r, n, i) = {p}; d.rotate1_up(r)", "let (r, n, i) = {p}; d.rotate1_down(r)", "let (r, n, i) = {p}; d.index_twice(r, r)", "let (r, n, i) = {p}; d.zip_mut_raw(r, r, |_, _| ())"]
IP = "{ let r = d.range(); let n = r.nonempty().unwrap(); (r, n, n.first()) }"
for m in MUT:
    m = m.replace("{p}", IP)
    w("C05", "mutation through a shared slice: " + m.rsplit("; ", 1)[-1], fn("let mut a = [1u8, 2]; scope(&a[..], |mut d| { %s; });" % m), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %s; });" % m), "elements of shared storage are mutated")
    w("C05", "mutation through a shared vector: " + m.rsplit("; ", 1)[-1], fn("let mut a = vec![1u8, 2]; scope(&a, |mut d| { %s; });" % m), fn("let mut a = vec![1u8, 2]; scope(&mut a, |mut d| { %s; });" % m), "elements of shared storage are mutated")
    w("C05", "mutation through a container that is not exclusively borrowed: " + m.rsplit("; ", 1)[-1], fn("let mut a = [1u8, 2]; scope(&mut a[..], |d| { %s; });" % m), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %s; });" % m), "mutation needs no exclusive access")
PMUT = ["let _ = &mut d[r]", "let _ = &mut d[i..]", "let _ = &mut d[..i]", "d.swap_ptr(i, i)", "d.rotate1_prange(n)", "d.split_container_at_pointer(i, |_, _, _, _| ())"]
PP = "let r = d.pointer_range(); let n = r.nonempty().unwrap(); let i = n.first(); "
for m in PMUT:
    w("C05", "mutation through a shared slice: " + m, fn("let mut a = [1u8, 2]; scope(&a[..], |mut d| { %s; });" % (PP + m)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %s; });" % (PP + m)), "elements of shared storage are mutated", PPTR)
    w("C05", "mutation through a container that is not exclusively borrowed: " + m, fn("let mut a = [1u8, 2]; scope(&mut a[..], |d| { %s; });" % (PP + m)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %s; });" % (PP + m)), "mutation needs no exclusive access", PPTR)
ZM = "scope(&[5u8, 6][..], |k| { %szip(r, %s, k.pointer_range(), &k, |x, y| *x = *y); })"
for what, a, good in (("of a shared slice", "&a[..]", "&mut a[..]"), ("of a shared vector", "&a2", "&mut a2")):
    w("C05", "mutation by zip through a container " + what, fn("let mut a = [1u8, 2]; let mut a2 = vec![1u8, 2]; scope(%s, |mut d| { %s; });" % (a, ZM % (PP, "&mut d"))), fn("let mut a = [1u8, 2]; let mut a2 = vec![1u8, 2]; scope(%s, |mut d| { %s; });" % (good, ZM % (PP, "&mut d"))), "elements of shared storage are mutated", PPTR)
w("C05", "mutation by zip through a shared reference to the container", fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %s; });" % (ZM % (PP, "&d"))), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %s; });" % (ZM % (PP, "&mut d"))), "mutation needs no exclusive access", PPTR)
for x, y in (("&mut d", "&mut d"), ("&mut d", "&d"), ("&d", "&mut d")):
    w("C05", "zip of one container with itself as (%s, %s)" % (x, y), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %szip(r, %s, r, %s, |x, y| { let _ = (x, y); }); });" % (PP, x, y)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %szip(r, &d, r, &d, |x, y| { let _ = (x, y); }); });" % PP), "a mutable reference overlaps another reference", PPTR)
w("C05", "zip keeps references across a mutation", fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %slet mut o: Vec<&u8> = vec![]; zip(r, &d, r, &d, |x, _| o.push(x)); d.swap_ptr(i, i); let _z = o; });" % PP), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %slet mut o: Vec<&u8> = vec![]; zip(r, &d, r, &d, |x, _| o.push(x)); let _z = o; d.swap_ptr(i, i); });" % PP), "a shared reference survives a mutation", PPTR)
w("C05", "zip hands out a mutable reference twice", fn("let mut a = [1u8, 2]; let b = [3u8, 4]; scope(&mut a[..], |mut d| scope(&b[..], |k| { %slet mut o: Vec<&mut u8> = vec![]; zip(r, &mut d, k.pointer_range(), &k, |x, _| o.push(x)); zip(r, &mut d, k.pointer_range(), &k, |x, _| o.push(x)); }));" % PP), fn("let mut a = [1u8, 2]; let b = [3u8, 4]; scope(&mut a[..], |mut d| scope(&b[..], |k| { %slet mut o: Vec<&mut u8> = vec![]; zip(r, &mut d, k.pointer_range(), &k, |x, _| o.push(x)); let mut o: Vec<&mut u8> = vec![]; zip(r, &mut d, k.pointer_range(), &k, |x, _| o.push(x)); }));" % PP), "mutable references overlap", PPTR)
for t in ("GetUncheckedMut", "ContiguousMut"):
    for s in ("&'static [u8]", "&'static Vec<u8>", "&'static &'static mut [u8]"):
        w("C05", "%s is implemented for %s" % (t, s), "fn f<T: %s>() {}\nfn main() { f::<%s>(); }\n" % (t, s), "fn f<T: %s>() {}\nfn main() { f::<&'static mut [u8]>(); }\n" % t, "shared storage counts as mutable")
# references do not outlive the borrow of the container
ACC = ["&mut d[i]", "&mut d[r]", "&mut d[i..]", "&mut d[..i]", "&mut d[..]", "d.index_twice(r, r).unwrap().0", "d.index_twice(r, r).unwrap().1"]
for m in ACC:
    w("C05", "two live mutable accesses: %s" % m, fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let x = %s; let y = %s; let _z = (x, y); });" % (IP, m, m)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let x = %s; let _z = x; let y = %s; let _z = y; });" % (IP, m, m)), "mutable references overlap")
    w("C05", "shared access while mutably accessed: %s" % m, fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let x = %s; let y = &d[i]; let _z = (x, y); });" % (IP, m)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let x = %s; let _z = x; let y = &d[i]; let _z = y; });" % (IP, m)), "a mutable and a shared reference overlap")
SH = ["&d[i]", "&d[r]", "&d[i..]", "&d[..i]", "&d[..]"]
for m in SH:
    w("C05", "mutation while borrowed: %s" % m, fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let x = %s; d[i] = 3; let _z = x; });" % (IP, m)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let x = %s; let _z = x; d[i] = 3; });" % (IP, m)), "a shared reference survives a mutation")
    w("C05", "reference outlives the container: %s" % m, fn("scope(vec![1u8, 2], |d| { let (r, n, i) = %s; let x = %s; drop(d); let _z = x; });" % (IP, m)), fn("scope(vec![1u8, 2], |d| { let (r, n, i) = %s; let x = %s; let _z = x; drop(d); });" % (IP, m)), "a reference outlives its container")
for m in ["&d[i]", "&d[r]", "&d[i..]", "&d[..i]"]:
    w("C05", "reference through a pointer particle outlives the container: %s" % m, fn("scope(vec![1u8, 2], |d| { %slet x = %s; drop(d); let _z = x; });" % (PP, m)), fn("scope(vec![1u8, 2], |d| { %slet x = %s; let _z = x; drop(d); });" % (PP, m)), "a reference outlives its container", PPTR)
    w("C05", "mutation while borrowed through a pointer particle: %s" % m, fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %slet x = %s; d.swap_ptr(i, i); let _z = x; });" % (PP, m)), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { %slet x = %s; let _z = x; d.swap_ptr(i, i); });" % (PP, m)), "a shared reference survives a mutation", PPTR)
for s in ("scan_from(i, |x| { {o}.push(x); true })", "scan_from_rev(i, |x| { {o}.push(x); true })", "scan_range(r, |x| { {o}.push(x); true })"):
    w("C05", "elements seen by a scan are kept across a mutation: " + s.split("(")[0], fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let mut o: Vec<&u8> = vec![]; d.%s; d[i] = 3; let _z = o; });" % (IP, s.replace("{o}", "o"))), fn("let mut a = [1u8, 2]; scope(&mut a[..], |mut d| { let (r, n, i) = %s; let mut o: Vec<&u8> = vec![]; d.%s; let _z = o; d[i] = 3; });" % (IP, s.replace("{o}", "o"))), "a shared reference survives a mutation")
w("C05", "split containers outlive the borrow of the container", fn("let mut a = [1u8, 2, 3]; scope(&mut a[..], |mut c| { let i = c.pointer_range().first(); let mut k: Option<&mut [u8]> = None; c.split_container_at_pointer(i, |mut x, rx, _, _| { k = Some(&mut x[rx]); }); });"),
  fn("let mut a = [1u8, 2, 3]; scope(&mut a[..], |mut c| { let i = c.pointer_range().first(); let mut k: Option<&mut [u8]> = None; c.split_container_at_pointer(i, |mut x, rx, _, _| { let _k = Some(&mut x[rx]); }); });"), "a mutable reference leaves the split", PPTR)
# ---------------------------------------------------------------- C06 growable storage
V = "scope({0}, |mut c| { let i = c.vet(0).unwrap(); let mut c = {1}; {2}; });"
for what, st in (("a vector", "vec![1u8, 2]"), ("a borrowed vector", "&mut vec![1u8, 2]")):
    w("C06", "push without switching to index-only mode on " + what, fn(V.replace("{0}", st).replace("{1}", "c").replace("{2}", "c.push(1)")), fn(V.replace("{0}", st).replace("{1}", "c.only_index()").replace("{2}", "c.push(1)")), "storage grows while pointer particles may exist")
    w("C06", "insert without switching to index-only mode on " + what, fn(V.replace("{0}", st).replace("{1}", "c").replace("{2}", "c.insert(i, 1)")), fn(V.replace("{0}", st).replace("{1}", "c.only_index()").replace("{2}", "c.insert(i, 1)")), "storage grows while pointer particles may exist")
    w("C06", "a twin of " + what, fn(V.replace("{0}", st).replace("{1}", "c").replace("{2}", "c.make_twin(&[1u8, 2][..])")), fn("scope(&mut [1u8, 2][..], |mut c| { c.make_twin(&[1u8, 2][..]); });"), "growable storage gets a twin")
    w("C06", "%s as a twin" % what, fn("scope(&mut [1u8, 2][..], |mut c| { c.make_twin(%s); });" % st), fn("scope(&mut [1u8, 2][..], |mut c| { c.make_twin(&[1u8, 2][..]); });"), "growable storage becomes a twin")
for s in ("Vec<u8>", "&'static mut Vec<u8>", "Box<Vec<u8>>"):
    w("C06", "FixedLength is implemented for " + s, "fn f<T: FixedLength>() {}\nfn main() { f::<%s>(); }\n" % s, "fn f<T: FixedLength>() {}\nfn main() { f::<&'static [u8]>(); }\n", "growable storage counts as fixed")
w("C06", "a container of a vector is cloned", fn("scope(vec![1u8, 2], |c| { let _d = c.clone(); });"), fn("scope(&[1u8, 2][..], |c| { let _d = c.clone(); });"), "two containers of growable storage share a brand")
w("C06", "an index-only container of a vector is cloned", fn("scope(vec![1u8, 2], |c| { let _d = c.only_index().clone(); });"), fn("scope(&[1u8, 2][..], |c| { let _d = c.only_index().clone(); });"), "two containers of growable storage share a brand")
for s in ("Container<'static, Vec<u8>>", "Container<'static, Vec<u8>, OnlyIndex>", "Container<'static, &'static mut Vec<u8>>"):
    for t in ("Clone", "Copy"): w("C06", "%s is %s" % (s, t), "fn f<T: %s>() {}\nfn main() { f::<%s>(); }\n" % (t, s), "fn f<T: %s>() {}\nfn main() { f::<u8>(); }\n" % t, "two containers of growable storage share a brand")
w("C06", "the original stays usable after only_index", fn("scope(vec![1u8, 2], |c| { let d = c.only_index(); let _ = c.len(); });"), fn("scope(vec![1u8, 2], |c| { let d = c.only_index(); let _ = d.len(); });"), "pointer access is possible beside index-only growth")
for e in ("c.pointer_range()", "c.pointer_slice()", "c.distance_to(p)", "&c[p]", "&c[p..]", "&c[q]", "c.scan_pointer_range(q, |_| true)", "c.split_at_pointer(p)", "c.scan_tail_(p, |_| true)"):
    w("C06", "pointer access in index-only mode: " + e, fn("scope(&[1u8, 2][..], |c| { let q = c.pointer_range(); let p = q.nonempty().unwrap().first(); let c = c.only_index(); let _ = %s; });" % e), fn("scope(&[1u8, 2][..], |c| { let q = c.pointer_range(); let p = q.nonempty().unwrap().first(); let _ = %s; });" % e), "pointer particles are usable although the storage may move", PPTR)
for e in ("d.swap_ptr(p, p)", "d.rotate1_prange(n)", "d.split_container_at_pointer(p, |_, _, _, _| ())", "d[q][0] = 1"):
    w("C06", "pointer access in index-only mode: " + e, fn("scope(&mut [1u8, 2][..], |c| { let q = c.pointer_range(); let n = q.nonempty().unwrap(); let p = n.first(); let mut d = c.only_index(); %s; });" % e), fn("scope(&mut [1u8, 2][..], |c| { let q = c.pointer_range(); let n = q.nonempty().unwrap(); let p = n.first(); let mut d = c; %s; });" % e), "pointer particles are usable although the storage may move", PPTR)
# ---------------------------------------------------------------- C20 thread safety
def neg(tr, ty, pre=PRE, what="is thread safe although it must not be"): w("C20", "%s is %s" % (ty, tr), "fn f<T: %s>() {}\nfn main() { f::<%s>(); }\n" % (tr, ty), "fn f<T: %s>() {}\nfn main() { f::<u8>(); }\n" % tr, what, pre)
POS = []
def pos(tr, ty, pre=PRE): POS.append({"id": "%s is not %s" % (ty, tr), "prop": "C20", "src": pre + "fn f<T: %s>() {}\nfn main() { f::<%s>(); }\n" % (tr, ty), "ctl": pre + "fn g<T>() {}\nfn main() { g::<%s>(); }\n" % ty})
PTRT = ["PIndex<'static, u8, {0}>", "PRange<'static, u8, {0}>", "PSlice<'static, u8, {0}>"]
for tr in ("Send", "Sync"):
    for p in ("NonEmpty", "Unknown"):
        for t in PTRT: neg(tr, t.replace("{0}", p), PPTR)
        pos(tr, "Index<'static, %s>" % p); pos(tr, "Range<'static, %s>" % p)
    neg(tr, "PRangeIter<'static, u8>", PPTR)
    pos(tr, "indexing::indexing::RangeIter<'static>"); pos(tr, "indexing::indexing::Subdivide<'static>")
    for m in ("", ", OnlyIndex"):
        for s in ("&'static [u8]", "&'static mut [u8]", "Vec<u8>", "&'static Vec<u8>", "&'static mut Vec<u8>"): pos(tr, "Container<'static, %s%s>" % (s, m))
        for s in ("Vec<std::rc::Rc<u8>>", "&'static [std::rc::Rc<u8>]", "&'static mut [std::rc::Rc<u8>]"): neg(tr, "Container<'static, %s%s>" % (s, m))
for m in ("", ", OnlyIndex"):
    C = "std::cell::Cell<u8>"; G = "std::sync::MutexGuard<'static, u8>"
    pos("Send", "Container<'static, Vec<%s>%s>" % (C, m)); neg("Sync", "Container<'static, Vec<%s>%s>" % (C, m))
    neg("Send", "Container<'static, &'static [%s]%s>" % (C, m)); neg("Sync", "Container<'static, &'static [%s]%s>" % (C, m))
    pos("Send", "Container<'static, &'static mut [%s]%s>" % (C, m)); neg("Sync", "Container<'static, &'static mut [%s]%s>" % (C, m))
    pos("Sync", "Container<'static, Vec<%s>%s>" % (G, m)); neg("Send", "Container<'static, Vec<%s>%s>" % (G, m))
    pos("Sync", "Container<'static, &'static [%s]%s>" % (G, m)); pos("Send", "Container<'static, &'static [%s]%s>" % (G, m))
# ---------------------------------------------------------------- C01/C18 what users can implement or reach
for t in ("Trustworthy", "Contiguous", "ContiguousMut", "FixedLength", "GetUnchecked", "GetUncheckedMut", "Pushable"): pass

"""Properties that live in types and signatures: rules over the extracted item facts, and compile-fail witnesses
(each with a compiling twin) against the crate as a downstream user sees it."""
import os, subprocess, json, re
from concurrent.futures import ThreadPoolExecutor
import build, witnesses

BRANDED = ("Container", "Index", "Range", "RangeIter", "Subdivide", "PIndex", "PRange", "PSlice", "PRangeIter")
PARTICLES = BRANDED[1:]; POINTERS = ("PIndex", "PRange", "PSlice", "PRangeIter")
def last(p): return p.rsplit("::", 1)[-1]
def ob(rule, fn, at, verdict, detail=None, cfg="types"): return {"fn": fn, "cfg": cfg, "rule": rule, "at": at, "verdict": verdict, "states": 1, "detail": detail or []}

class Facts:
    def __init__(self, f): self.f = f; self.T = f["types"]
    def branded(self, t):
        """name of the branded type t is, or None"""
        T = self.T[t]
        return last(T["def"]) if T["k"] == "adt" and T["def"].startswith("indexing::") and last(T["def"]) in BRANDED else None
    def brand(self, t):
        for a in self.T[t]["args"]:
            if "re" in a: return a["re"]
    def walk(self, t, seen=None):
        """all types inside t, with the enclosing chain of references [(region, mutable)]"""
        st = [(t, ())]; seen = set()
        while st:
            t, ch = st.pop()
            if (t, ch) in seen: continue
            seen.add((t, ch)); yield t, ch
            T = self.T[t]; k = T["k"]
            if k == "ref": st.append((T["to"], ch + ((T["re"], T["mut"]),)))
            elif k in ("ptr", "slice", "array") : 
                for q in ("to",):
                    if q in T: st.append((T[q], ch))
            elif k == "tuple": st += [(x, ch) for x in T["f"]]
            for a in T.get("args", ()) if isinstance(T.get("args"), list) else ():
                if isinstance(a, dict) and "ty" in a: st.append((a["ty"], ch))
    def brands(self, ts, kinds=BRANDED):
        out = set()
        for t in ts:
            for x, ch in self.walk(t):
                n = self.branded(x)
                if n in kinds: out.add(self.brand(x))
        return out
    def regions(self, ts):
        """(regions of shared references, of mutable references, brands, other lifetime arguments)"""
        sh, mu, br, ot = set(), set(), set(), set()
        for t in ts:
            for x, ch in self.walk(t):
                T = self.T[x]
                if T["k"] == "ref": (mu if T["mut"] else sh).add(T["re"])
                elif T["k"] == "adt":
                    for a in T["args"]:
                        if "re" in a: (br if self.branded(x) else ot).add(a["re"])
        return sh, mu, br, ot
    def fnbounds(self, fn):
        """argument types of closure bounds of fn"""
        out = []
        for b in fn["bounds"]:
            if b["k"] == "trait" and last(b["trait"]) in ("Fn", "FnMut", "FnOnce"):
                for a in b["args"][1:]:
                    if "ty" in a: out.append(a["ty"])
        return out
    def otherbounds(self, fn):
        out = []; re_ = set()
        for b in fn["bounds"]:
            if b["k"] == "trait" and last(b["trait"]) not in ("Fn", "FnMut", "FnOnce"):
                for a in b["args"][1:]:
                    if "ty" in a: out.append(a["ty"])
                    if "re" in a and b["trait"].startswith("indexing::"): re_.add(a["re"])
        return out, re_
    def safe_api(self):
        for fn in self.f["fns"]:
            if fn["exported"] and not fn["unsafe"]: yield fn
    def free_regions(self, fn):
        """regions that belong to the caller of fn: named in its generics or its argument types"""
        r = set(a["re"] for a in fn["args"] if "re" in a)
        for s in self.regions(fn["ins"]): r |= s
        return r
    def container(self, t):
        """(brand, storage type, mode type) of Container types inside t"""
        for x, ch in self.walk(t):
            if self.branded(x) == "Container":
                a = self.T[x]["args"]; ty = [y["ty"] for y in a if "ty" in y]
                yield self.brand(x), ty[0], (ty[1] if len(ty) > 1 else None), ch
    def modename(self, t):
        if t is None: return "()"
        T = self.T[t]
        if T["k"] == "tuple" and not T["f"]: return "()"
        if T["k"] == "param": return T["param"]
        return last(T["def"]) if T["k"] == "adt" else T["name"]

# ------------------------------------------------------------------ rules
def rules_brand(F):
    out = []
    for a in F.f["adts"]:
        n = last(a["def"])
        if n not in BRANDED or not a["exported"]: continue
        for g in a["generics"]:
            if g["kind"] == "re" and g is next(x for x in a["generics"] if x["kind"] == "re"):
                out.append(ob("the brand parameter is invariant", a["def"], a["sp"], "proved" if g["var"] == "o" else "refuted", ["lifetime parameter %s of %s has variance %s" % (g["n"], n, g["var"])]))
        for fl in a["fields"]:
            pub = fl["vis"].startswith("Public")
            out.append(ob("particles and containers have no public field", a["def"] + "." + fl["n"], a["sp"], "refuted" if pub else "proved", ["field %s is public: a particle can be forged or altered" % fl["n"]]))
    for fn in F.safe_api():
        outb = F.brands([fn["out"]]); inb = F.brands(fn["ins"])
        ob_t, ob_r = F.otherbounds(fn)
        boundb = F.brands(ob_t) | ob_r
        if outb:
            bad = [b for b in outb if b not in inb and b not in boundb]
            if fn["in_trait"] and not inb and bad: continue
            out.append(ob("a brand in the result comes from an argument", fn["key"], fn["sp"], "refuted" if bad else "proved", ["brand %s of the result occurs in no argument: %s" % (b, fn["sig"]) for b in bad]))
        cont = set(b for t in fn["ins"] for b, s, m, ch in F.container(t))
        if cont or outb:
            mixed = len(inb | boundb) > 1 and (cont or outb)
            out.append(ob("all particles an operation combines carry one brand", fn["key"], fn["sp"], "refuted" if mixed else "proved", ["different brands %s: %s" % (sorted(inb | boundb), fn["sig"])]))
        free = F.free_regions(fn)
        for t in F.fnbounds(fn):
            for b in F.brands([t]):
                bad = b in free and b not in inb
                out.append(ob("a brand handed to a closure is universally quantified or the caller's", fn["key"], fn["sp"], "refuted" if bad else "proved", ["the caller of %s chooses the brand %s of %s" % (fn["name"], b, F.T[t]["name"])]))
        # a container brand is only passed on with the same storage, by clone/only_index, or as a twin in index-only mode
        for b, s, m, ch in F.container(fn["out"]):
            srcs = [(s2, m2) for t in fn["ins"] for b2, s2, m2, _ in F.container(t) if b2 == b]
            if not srcs: continue
            foreign = all(F.T[s2]["name"] != F.T[s]["name"] for s2, _ in srcs)
            if foreign: out.append(ob("a container made over other storage does not accept pointer particles", fn["key"], fn["sp"], "proved" if F.modename(m) == "OnlyIndex" else "refuted", ["%s returns a container over %s with the brand of another storage in mode %s" % (fn["name"], F.T[s]["name"], F.modename(m))]))
    return out
FIELDS = {"C02": ("Index", "Range", "RangeIter", "Subdivide"), "C03": ("Index", "Range"), "C06": ("Container",), "C17": POINTERS}
def rules_fields(F, prop):
    """the type invariant of a value is kept only if its fields cannot be written from outside the crate"""
    out = []
    for a in F.f["adts"]:
        if last(a["def"]) not in FIELDS[prop] or not a["exported"]: continue
        for fl in a["fields"]:
            out.append(ob("no field can be changed from outside the crate", a["def"] + "." + fl["n"], a["sp"], "refuted" if fl["vis"].startswith("Public") else "proved", ["field %s is public: code outside the crate can set it to anything, past every check of the operations" % fl["n"]]))
    return out
def rules_lifetimes(F):
    out = []
    for fn in F.safe_api():
        sh, mu, br, ot = F.regions([fn["out"]])
        ish, imu, ibr, iot = F.regions(fn["ins"])
        allin = ish | imu | iot
        if fn.get("self") is not None:
            s1, s2, s3, s4 = F.regions([fn["self"]]); allin |= s1 | s2 | s4; imu |= s2
        has = any(F.branded(x) == "Container" for t in fn["ins"] for x, _ in F.walk(t)) or (fn.get("trait") and fn["trait"]["path"].startswith("indexing::container_traits"))
        if not has: continue
        for r in sorted(sh | mu):
            bad = r == "'static" or r not in allin
            out.append(ob("a returned reference lives no longer than the borrow of the container", fn["key"], fn["sp"], "refuted" if bad else "proved", ["lifetime %s of the result is not that of an argument: %s" % (r, fn["sig"])]))
        for r in sorted(mu):
            if r in allin:
                bad = r not in imu and r not in iot
                out.append(ob("a returned mutable reference comes from an exclusive borrow", fn["key"], fn["sp"], "refuted" if bad else "proved", ["mutable result of lifetime %s from a shared borrow: %s" % (r, fn["sig"])]))
        free = F.free_regions(fn)
        for t in F.fnbounds(fn):
            csh, cmu, cbr, cot = F.regions([t])
            for r in sorted(csh | cmu):
                if r == "'static" or r in free:
                    bad = r == "'static" or r not in allin or r in cmu and r not in imu and r not in iot
                    out.append(ob("a reference handed to a closure lives no longer than the borrow of the container", fn["key"], fn["sp"], "refuted" if bad else "proved", ["lifetime %s of a closure argument: %s" % (r, fn["sig"])]))
    for fn in F.f["fns"]:
        # references conjured up from a pointer particle by naming a reference to the container
        if not (fn.get("trait") and last(fn["trait"]["path"]) == "ContainerRef") or fn.get("self") is None: continue
        S = F.T[fn["self"]]; sh, mu, br, ot = F.regions([fn["out"]])
        own = S["re"] if S["k"] == "ref" else None
        for r in sorted(sh | mu):
            out.append(ob("a reference made from a container reference has its lifetime", fn["key"], fn["sp"], "proved" if r == own else "refuted", ["lifetime %s, container reference %s" % (r, S["name"])]))
        for r in sorted(mu):
            stor = [s for b, s, m, ch in F.container(fn["self"])]
            bd = set(b["trait"] for b in fn["bounds"] if b["k"] == "trait" and b["self"] in stor)
            ok = S["k"] == "ref" and S["mut"] and all(F.T[s]["k"] != "ref" or F.T[s]["mut"] for s in stor)
            if ok and any(F.T[s]["k"] == "param" for s in stor) and not any(last(t) in ("ContiguousMut", "GetUncheckedMut") for t in bd):
                if any(not t.startswith(("core::", "indexing::container_traits::")) for t in bd): continue      # a trait of its own: its supertraits decide
                ok = False
            out.append(ob("a mutable reference made from a container reference needs exclusive access to mutable storage", fn["key"], fn["sp"], "proved" if ok else "refuted", ["%s for %s, bounds on the storage: %s" % (F.T[fn["out"]]["name"], S["name"], sorted(last(t) for t in bd))]))
    for i in F.f["impls"]:
        if i.get("trait", "").startswith("indexing::") and last(i["trait"]) in ("GetUncheckedMut", "ContiguousMut"):
            T = F.T[i["self"]]
            bad = T["k"] == "ref" and not T["mut"]
            out.append(ob("no shared reference counts as mutable storage", i["def"], i["sp"], "refuted" if bad else "proved", ["%s for %s" % (last(i["trait"]), i["self_s"])]))
    return out
def rules_growth(F):
    out = []
    for fn in F.safe_api():
        conts = [(b, s, m, ch) for t in fn["ins"] for b, s, m, ch in F.container(t)]
        if not conts: continue
        # the storage itself is never lent out mutably
        stor = set(F.T[s]["name"] for b, s, m, ch in conts)
        lent = [F.T[x]["name"] for t in [fn["out"]] + F.fnbounds(fn) for x, ch in F.walk(t) if F.T[x]["name"] in stor and F.T[x]["k"] == "param" and any(mm for _, mm in ch)]
        out.append(ob("the storage of a live container is not lent out mutably", fn["key"], fn["sp"], "refuted" if lent else "proved", ["%s hands out &mut %s, through which it can be shortened" % (fn["name"], x) for x in lent[:1]]))
        # pointer particles only with containers in pointer mode
        modes = set(F.modename(m) for b, s, m, ch in conts)
        ptr = [F.T[x]["name"] for t in fn["ins"] + [fn["out"]] + F.otherbounds(fn)[0] for x, _ in F.walk(t) if F.branded(x) in POINTERS]
        if ptr: out.append(ob("pointer particles need a container in pointer mode", fn["key"], fn["sp"], "refuted" if modes - {"()"} else "proved", ["%s works on containers in mode %s" % (fn["name"], sorted(modes))]))
        push = [b for b in fn["bounds"] if b["k"] == "trait" and last(b["trait"]) == "Pushable"]
        if push and any(any(mm for _, mm in ch) for *_, ch in conts): out.append(ob("storage grows only in index-only mode", fn["key"], fn["sp"], "refuted" if modes - {"OnlyIndex"} else "proved", ["%s works on containers in mode %s" % (fn["name"], sorted(modes))]))
        # never back from index-only to pointer mode
        for b, s, m, ch in F.container(fn["out"]):
            src = [m2 for b2, s2, m2, _ in conts if b2 == b]
            if src: out.append(ob("index-only mode is never left", fn["key"], fn["sp"], "refuted" if F.modename(m) not in ("OnlyIndex",) and any(F.modename(x) != F.modename(m) for x in src) else "proved", ["%s turns mode %s into %s" % (fn["name"], [F.modename(x) for x in src], F.modename(m))]))
    return out
def rules_traits(F):
    out = []
    for t in F.f["traits"]:
        if last(t["def"]) in ("Trustworthy", "Contiguous", "ContiguousMut", "FixedLength", "GetUnchecked", "GetUncheckedMut", "Pushable", "ContainerRef", "PointerRange", "OnePointRange"):
            if not t["exported"]: continue
            out.append(ob("traits that unchecked code relies on are unsafe to implement", t["def"], t["sp"], "proved" if t["unsafe"] else "refuted", ["safe code can implement %s and make unchecked accesses go anywhere" % last(t["def"])]))
    for fn in F.f["fns"]:
        if fn["exported"] and not fn["unsafe"] and fn["name"] in ("xget_unchecked", "xget_unchecked_mut", "insert_unchecked"):
            out.append(ob("unchecked element access is unsafe to call", fn["key"], fn["sp"], "refuted", [fn["sig"]]))
        elif fn["exported"] and fn["name"] in ("xget_unchecked", "xget_unchecked_mut", "insert_unchecked"): out.append(ob("unchecked element access is unsafe to call", fn["key"], fn["sp"], "proved"))
    return out

# ------------------------------------------------------------------ witnesses
def compile_lib(scratch, features="full"):
    m = build.manifest(); out = os.path.join(scratch, "libindexing.rmeta")
    cmd = ["rustc", "+nightly", "--edition", m["edition"], "--crate-name", m["name"], "--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "-o", out, m["root"]]
    for f in build.FEATURES[features]: cmd += ["--cfg", 'feature="%s"' % f]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode: raise build.BuildError("the crate does not compile:\n" + r.stderr[-2000:])
    return out
def compiles(src, lib, scratch, name):
    p = os.path.join(scratch, name + ".rs")
    with open(p, "w") as f: f.write(src)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-name", "w", "--crate-type", "bin", "--emit=metadata", "--cap-lints", "allow", "--error-format=json", "--extern", "indexing=" + lib, "-o", os.path.join(scratch, name + ".rmeta"), p], capture_output=True, text=True, timeout=120)
    codes = []
    for l in r.stderr.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get("level", "").startswith("error"): codes.append((j.get("code") or {}).get("code") or j.get("message", "")[:80])
    return r.returncode, codes
RESOLVE = {"E0432", "E0433", "E0425", "E0412", "E0405", "E0107", "E0463", "E0786"}      # the path of the witness is wrong, not its claim
def witness(prop, scratch):
    lib = compile_lib(scratch)
    ws = [w for w in witnesses.W if w["prop"] == prop]; ps = [p for p in witnesses.POS if p["prop"] == prop]
    def neg(iw):
        i, w = iw
        rc, codes = compiles(w["bad"], lib, scratch, "bad%d" % i)
        rg, cg = compiles(w["good"], lib, scratch, "good%d" % i)
        if rc == 0: v, d = "refuted", ["this program compiles; %s" % w["what"], w["bad"]]
        elif rg != 0: v, d = "undecided", ["the compiling twin does not compile either: %s" % cg[:3]]
        elif set(c for c in codes if c != "aborting due to 1 previous error") <= RESOLVE: v, d = "undecided", ["rejected for another reason: %s" % codes[:3]]
        else: v, d = "proved", [codes[:2]]
        return ob("rejected: " + w["id"], "witness", "", v, d)
    def pos(iw):
        i, w = iw
        rc, codes = compiles(w["src"], lib, scratch, "pos%d" % i)
        rg, cg = compiles(w["ctl"], lib, scratch, "ctl%d" % i)
        v = "proved" if rc == 0 else "undecided" if rg != 0 or "E0277" not in codes else "refuted"
        return ob("accepted: not (%s)" % w["id"], "witness", "", v, ["this program is rejected: %s" % codes[:2], w["src"]])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(neg, enumerate(ws))) + list(ex.map(pos, enumerate(ps)))
    return res, {"witness_programs_compiled": 2 * (len(ws) + len(ps))}
def run(part, prop, scratch, tier):
    if part == "witnesses": return witness(prop, scratch)
    if part == "features":
        import features
        return features.run(scratch, tier)
    F = Facts(build.extract("full", False, scratch))
    o = rules_fields(F, prop) if part == "fields" else {"brand": rules_brand, "lifetimes": rules_lifetimes, "growth": rules_growth, "traits": rules_traits}[part](F)
    return o, {"signatures_and_items_examined": len(F.f["fns"]) + len(F.f["adts"]) + len(F.f["impls"]) + len(F.f["traits"])}
if __name__ == "__main__":
    import sys
    s = build.scratch()
    try:
        for part in sys.argv[2].split(","):
            o, st = run(part, sys.argv[1], s, "quick")
            n = {}
            for x in o:
                n[x["verdict"]] = n.get(x["verdict"], 0) + 1
                if x["verdict"] != "proved" or "-v" in sys.argv: print(x["verdict"], x["rule"], x["fn"], x["detail"][:2])
            print(part, n, st)
    finally: build.drop(s)

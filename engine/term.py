"""Termination: every loop has a lexicographic linear ranking function over its loop-carried integers. A run that comes back to a loop header in a state it was in before is an infinite run, since the answers of
user code can be repeated for ever."""
from itertools import combinations
from poly import P, ZERO, ONE
from state import ge, eq, f_and, f_not, TRUE, FALSE

def leafids(sh):
    """identity (cell, path) of every leaf of an abstracted state, in the order of its leaves"""
    out = []
    def go(x, at):
        k = x[0]
        if k in ("i", "o", "p"): out.append(at)
        elif k in ("s",):
            for i, y in enumerate(x[1]): go(y, at + (i,))
        elif k in ("e", "c"):
            for i, y in enumerate(x[2]): go(y, at + (x[1], i))
        elif k in ("f", "it", "itm", "prg"): out.append(at + ("lo",)); out.append(at + ("hi",))
        elif k == "un": go(x[1], at)
        elif k == "raw": out.append(at + ("raw",)); go(x[1], at + ("v",))
    for c, y in sh[0]: go(y, (c,))
    for k, m in sh[1]:
        if m == "P": out.append(("gh", k))
    for r in sh[2]: out.append(("len", r))
    return out
class Trans:
    """one way around a loop: header shape a with values pre, back in header shape b with values post, in state st"""
    def __init__(self, a, b, pre, post, st): self.a = a; self.b = b; self.pre = pre; self.post = post; self.st = st
def vals(sh, leaves): return {i: v for i, v in zip(leafids(sh), leaves) if isinstance(v, P)}
def sccs(nodes, edges):
    succ = {n: set() for n in nodes}
    for a, b in edges: succ[a].add(b)
    def reach(n):
        seen = set(); st = list(succ[n])
        while st:
            x = st.pop()
            if x not in seen: seen.add(x); st += succ[x]
        return seen
    R = {n: reach(n) for n in nodes}
    out = []; done = set()
    for n in nodes:
        if n in done or n not in R[n]: continue
        c = set(m for m in nodes if m in R[n] and n in R[m]); done |= c; out.append(c)
    return out
def rank(trans, outer, terms):
    """-> (None, how) when every cycle is ranked, else (remaining transitions, None)"""
    work = list(trans); how = []
    while True:
        comps = sccs(sorted(set(t.a for t in work) | set(t.b for t in work)), [(t.a, t.b) for t in work])
        inner = [t for t in work if any(t.a in c and t.b in c for c in comps)]
        if not inner: return None, how
        progress = False; keep = list(inner)
        for c in comps:
            T = [t for t in inner if t.a in c and t.b in c]
            gone = find(T, outer, terms, how)
            if gone: progress = True; keep = [t for t in keep if t not in gone]
        if not progress: return inner, None
        work = keep
def find(T, outer, terms, how):
    ids = None
    for t in T:
        s = set(t.pre) & set(t.post); ids = s if ids is None else ids & s
    ids = [i for i in sorted(ids, key=str) if any(t.st.norm(t.pre[i] - t.post[i]).d for t in T)]
    cands = [((i, 1),) for i in ids] + [((i, -1),) for i in ids] + [((i, 1), (j, -1)) for i in ids for j in ids if i != j] + [((i, 1), (j, 1)) for i, j in combinations(ids, 2)]
    ev = lambda c, m: sum((k * m[i] for i, k in c), ZERO)
    best = ()
    for c in cands:
        strict = []
        ok = True
        for t in T:
            d = t.st.norm(ev(c, t.pre) - ev(c, t.post))
            if t.st.entails_ge(d - 1) and bounded(t, ev(c, t.pre), terms): strict.append(t)
            elif not t.st.entails_ge(d): ok = False; break
        if ok and len(strict) > len(best):
            best = strict; name = c
            if len(best) == len(T): break
    if best: how.append(" + ".join("%s%s" % ("-" if k < 0 else "", str(i)) for i, k in name))
    return best
def bounded(t, r, terms):
    """r is bounded below by a quantity that does not change in the loop"""
    r = t.st.norm(r)
    return any(t.st.entails_ge(r - x) for x in terms)
class Monitor:
    def __init__(self, an): self.an = an
    def loop(self, label, trans, outer, terms):
        trans = [t for t in trans if not t.st.infeasible()]
        rest, how = rank(trans, outer, terms)
        an = self.an; key = ("C26", "the loop terminates: a ranking function over its variables exists", label)
        from checks import Finding
        F = an.res.get(key)
        if F is None: F = an.res[key] = Finding(*key)
        if rest is None: F.ok += 1
        else:
            if an.e.debug:
                for t in rest: print("NO RANK", label, {k: (repr(v), repr(t.post.get(k))) for k, v in t.pre.items() if t.post.get(k) is None or t.st.norm(v - t.post[k]).d}, [repr(x) for x in t.st.cons][-12:])
            F.und.append("no linear ranking function found")
    def again(self, label, sh, old, new, st):
        """back at a header in the same shape as at an earlier visit: the values must differ"""
        fs = []
        for a, b in zip(old, new):
            if isinstance(a, P) and isinstance(b, P): fs.append(eq(st.norm(b - a)))
            elif a != b: return
        self.an.check("C26", "a loop never comes back to a state it was in before", st, f_not(f_and(*fs)) if fs else FALSE, label)
def loopy(facts, key, memo):
    """does anything reachable from body key contain a loop?"""
    B = facts["bodies"]
    def refs(k):
        out = set()
        def walk(x):
            if isinstance(x, dict):
                for q, v in x.items():
                    if q == "key" and isinstance(v, str): out.add(v)
                    else: walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        b = B[k]; walk(b["blocks"])
        for t in b["locals"]:
            if facts["types"][t]["k"] == "closure": out |= set(q for q in B if B[q]["def"] == facts["types"][t]["def"])
        return out
    def cyc(k):
        b = B[k]["blocks"]; col = {}
        def succ(i):
            t = b[i]["t"]; out = []
            if isinstance(t.get("t"), int): out.append(t["t"])
            if t["k"] == "switch": out += [x[1] for x in t["v"]] + ([t["o"]] if isinstance(t.get("o"), int) else [])
            return out
        st = [(0, iter(succ(0)))]; col[0] = 1
        while st:
            n, it = st[-1]
            for m in it:
                if col.get(m) == 1: return True
                if m not in col: col[m] = 1; st.append((m, iter(succ(m)))); break
            else: col[n] = 2; st.pop()
        return False
    if key in memo: return memo[key]
    seen = set(); st = [key]; r = False
    while st and not r:
        k = st.pop()
        if k not in B: continue
        if k in seen: continue
        seen.add(k)
        if ("c", k) not in memo: memo[("c", k)] = cyc(k); memo[("r", k)] = refs(k)
        r = memo[("c", k)]
        st += memo[("r", k)]
    memo[key] = r
    return r

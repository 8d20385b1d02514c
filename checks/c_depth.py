"""P11 recursion over parsed documents is bounded: call-graph cycles, depth guards, construction of recursive types."""
import re
import mir
import ctx as C
from value import mk
IDS = ["P11"]
LIMIT = 5000         # frames a 2 MB thread stack certainly has room for


def sccs(nodes, succ):
    """strongly connected components with a cycle (iterative Tarjan)"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = n[0]
                    n[0] += 1
                    st.append(y)
                    on.add(y)
                    work.append((y, iter(succ(y))))
                    break
                if y in on:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    s = []
                    while True:
                        y = st.pop()
                        on.discard(y)
                        s.append(y)
                        if y == x:
                            break
                    if len(s) > 1 or x in succ(x):
                        out.append(sorted(s))
    return out


def mentions(v, pred, n=0):
    if pred(v):
        return True
    if n > 25:
        return False
    for x in getattr(v, "a", ()):
        if isinstance(x, tuple):
            if any(hasattr(y, "k") and mentions(y, pred, n + 1) for y in x):
                return True
        elif hasattr(x, "k") and mentions(x, pred, n + 1):
            return True
    return False


def cut(b, s, target):
    """some side of the branch at s cannot reach target any more"""
    for x in set(b.succ(s)):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y not in seen and y != s:
                seen.add(y)
                st.extend(b.succ(y))
        if target not in seen:
            return True
    return False


def root_arg(v):
    """(argument index, number of steps into it) or None"""
    n = steps = 0
    while n < 40:
        n += 1
        if v.k in ("f", "elem", "chr"):
            steps += 1
            v = v.a[0]
        elif v.k == "arg":
            return v.a[2], steps
        elif v.k == "ext" and v.a[1]:
            steps += 1
            v = v.a[1][0]
        elif v.k == "cast":
            v = v.a[1]
        else:
            return None
    return None


def stepped(v):
    """v is a parameter plus (or minus) a positive constant"""
    n = 0
    while n < 12:
        n += 1
        if v.k == "f":
            v = v.a[0]
        elif v.k == "cast":
            v = v.a[1]
        elif v.k == "ext" and v.a[0].split("::")[-1] in ("checked_add", "checked_sub", "branch", "ok_or", "ok_or_else") and v.a[1]:
            if v.a[0].split("::")[-1].startswith("checked"):
                a, k = v.a[1][:2]
                return root_arg(a) is not None and k.k == "c" and isinstance(k.a[1], int) and k.a[1] > 0
            v = v.a[1][0]
        elif v.k == "agg" and v.a[2]:
            v = v.a[2][0]
        elif v.k == "bin" and str(v.a[0]).startswith(("Add", "Sub")):
            a, k = v.a[1:3]
            return root_arg(a) is not None and k.k == "c" and isinstance(k.a[1], int) and k.a[1] > 0
        else:
            return False
    return False


class Check:
    def __init__(self, c):
        self.c, self.P, self.R = c, c.P, c.R

    def comparison(self, b, fr, s):
        """symbolic condition of the branch ending block s"""
        t = b.blocks[s]["t"]
        return self.R.operand(fr, s, len(b.blocks[s]["s"]), t[2])

    def bounded(self, v, subject):
        """v compares something satisfying subject with a small constant"""
        if v.k in ("bin", "eq"):
            a = v.a[-2:]
            for x, y in (a, a[::-1]):
                if hasattr(x, "k") and hasattr(y, "k") and y.k == "c" and isinstance(y.a[1], int) and y.a[1] <= LIMIT and mentions(x, subject):
                    return True
        for x in getattr(v, "a", ()):
            if isinstance(x, tuple):
                if any(hasattr(y, "k") and self.bounded(y, subject) for y in x):
                    return True
            elif hasattr(x, "k") and self.bounded(x, subject):
                return True
        return False

    def counted(self, b, bi, t):
        """the call passes on a depth counter that was compared with a limit, or a u8 counter stepped with checked_add"""
        fr = self.R.root(b)
        i = len(b.blocks[bi]["s"])
        for n, a in enumerate(t[3]):
            ty = self.opty(b, a)
            if ty not in ("u8", "u16", "u32", "u64", "usize", "i32", "i64"):
                continue
            v = self.R.operand(fr, bi, i, a)
            args = set()
            mentions(v, lambda x: x.k == "arg" and args.add(x) is not None)
            if not args or not stepped(v):
                continue
            if ty == "u8" and mentions(v, lambda x: x.k == "ext" and x.a[0].endswith("checked_add")):
                return True
            for s in b.reach():
                if b.blocks[s]["t"][1] == "switch" and b.dominates(s, bi) and cut(b, s, bi):
                    if self.bounded(self.comparison(b, fr, s), lambda x: x in args):
                        return True
        return False

    def opty(self, b, a):
        p = a.get("m") or a.get("c")
        if not p:
            return ""
        if not p[1]:
            return b.lty(p[0])["s"]
        return b.ty(p[1][-1][4])["s"] if p[1][-1][0] == "f" else ""

    def adt_of(self, b, a):
        p = a.get("m") or a.get("c")
        if not p:
            return None
        t = b.lty(p[0])
        n = 0
        while t["k"] in ("ref", "ptr") and t.get("a") and n < 6:
            t = b.ty(t["a"][0])
            n += 1
        return t.get("d")

    def structural(self, b, bi, t, rec):
        """the call is made on a part of what the caller was given, and the type is one of rec"""
        fr = self.R.root(b)
        i = len(b.blocks[bi]["s"])
        for a in t[3]:
            d = self.adt_of(b, a)
            if d in rec:
                r = root_arg(self.R.operand(fr, bi, i, a))
                if r is None or r[1] > 0 or b.kind == "closure" and r[0] > 1:
                    return d
        return None


def recursive_adts(P):
    """local types that contain themselves"""
    A = P.adts["ppt_rs"]
    b0 = next(b for b in P.bodies.values() if b.crate == "ppt_rs")
    g = {}
    for n, a in A.items():
        out = set()
        for v in a["v"]:
            for f in v["f"]:
                seen, st = set(), [f[1]]
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    t = b0.ty(x)
                    if t["k"] == "adt" and t.get("d") in A:
                        out.add(t["d"])
                    st += t.get("a") or []
        g[n] = out
    return {x for s in sccs(sorted(g), lambda n: sorted(g.get(n, ()))) for x in s}


def run(c):
    P, R = c.P, c.R
    K = Check(c)
    ids = [b.id for b in P.bodies.values() if b.crate in ("ppt_rs", "pptcli", "ppt_mcp")]
    local = set(ids)
    succ = lambda x: sorted({y for _, y, _ in P.edges(x) if y in local}) if x in local else []
    rec = recursive_adts(P)
    c.coverage["recursive_types"] = sorted(rec)
    cycles = sccs(sorted(ids), succ)
    used, calls = set(), 0
    for s in cycles:
        left = {x: set() for x in s}
        bad = {}
        for x in s:
            b = P.body(x)
            sites = {}
            for bi, t in b.calls():
                y = P.callee_id(b, t)
                if y in s:
                    sites.setdefault(y, []).append((bi, t))
            for y in succ(x):
                if y not in s:
                    continue
                if y not in sites:
                    # a closure handed on, or called through a trait: counts with the calls inside it
                    left[x].add(y)
                    bad.setdefault((x, y), b.line)
                    continue
                for bi, t in sites[y]:
                    calls += 1
                    if K.counted(b, bi, t):
                        continue
                    d = K.structural(b, bi, t, rec)
                    if d:
                        used.add(d)
                        continue
                    left[x].add(y)
                    bad[(x, y)] = t[0]
        for q in sccs(s, lambda n: sorted(left.get(n, ()))):
            b = P.body(q[0])
            l = min(v for k, v in bad.items() if k[0] in q and k[1] in q)
            c.violate("recursion|" + "|".join(sorted(C.short_fn(x) for x in q)),
                      "%s recurses without a depth limit" % " -> ".join(C.short_fn(x) for x in q), "%s:%s in %s" % (b.file, l, b.id))
    # ---- values of recursive types built from input have a bounded depth (they are also dropped, cloned and printed recursively)
    builders = 0
    for b in sorted(P.bodies.values(), key=lambda b: (b.file, b.line, b.id)):
        if b.crate not in ("ppt_rs", "pptcli", "ppt_mcp") or b.derived:
            continue
        nest = []
        for bi, t in b.calls():
            n = mir.callee(t) or ""
            # T moved into another T, or into a list that is on the way to one
            if len(t[3]) >= 2:
                for a in t[3]:
                    p = a.get("m") or a.get("c")
                    if p and not p[1] and b.lty(p[0])["k"] == "adt" and b.lty(p[0]).get("d") in rec and cyclic(b, bi):
                        nest.append((bi, t, b.lty(p[0])["d"]))
        if not nest:
            continue
        builders += 1
        fr = R.root(b)
        for d in sorted({x[2] for x in nest}):
            ok = False
            loop = {bi for bi, t, dd in nest if dd == d}
            for s in b.reach():
                if b.blocks[s]["t"][1] != "switch" or not any(same_loop(b, s, x) and b.dominates(s, x) for x in loop):
                    continue
                if not any(not same_loop(b, y, s) for y in b.succ(s)):
                    continue
                v = K.comparison(b, fr, s)
                if bounded_len(b, s, v, d, K) or counter(b, s, K, v):
                    ok = True
            if not ok:
                t = nest[0][1]
                c.violate("depth|%s|%s" % (C.short_fn(b.id), d.split("::")[-1]),
                          "%s builds %s values from its input without a limit on their depth" % (b.id.split("::")[-1], d.split("::")[-1]), "%s:%s in %s" % (b.file, t[0], b.id))
    c.coverage["call_graph_functions"] = len(ids)
    c.coverage["recursive_cycles"] = [[C.short_fn(x) for x in s] for s in cycles]
    c.floor("functions_in_call_graph", len(ids), 1500)
    c.coverage["recursive_calls_checked"] = calls
    c.coverage["loops_building_recursive_values"] = builders
    c.coverage["rule"] = ("every call-graph cycle passes a depth counter compared with a limit, or descends into a part of a value of a recursive type; "
                          "every loop that nests values of such a type compares the depth with a limit and leaves when it is exceeded")
    c.explanation = "strongly connected components of the resolved call graph (closures included) and of the type definitions; guards are read from MIR branches"
    c.assumptions += ["recursion inside dependencies is not analysed", "values a caller nests by hand through the public API are the caller's"]


def cyclic(b, x):
    seen, st = set(), [x]
    while st:
        for y in b.succ(st.pop()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return x in seen


def reach_from(b, x):
    c = b.cache.setdefault("dp_reach", {})
    if x not in c:
        seen, st = set(), [x]
        while st:
            for y in b.succ(st.pop()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        c[x] = seen
    return c[x]


def same_loop(b, x, y):
    return y in reach_from(b, x) and x in reach_from(b, y)


def bounded_len(b, s, v, d, K):
    """the branch compares the length of a list of d with a constant"""
    l = set()
    for bi, t in b.calls():
        if (mir.callee(t) or "").split("::")[-1] == "len" and t[4] and t[3] and same_loop(b, bi, s):
            p = t[3][0].get("m") or t[3][0].get("c")
            if p and d.split("::")[-1] in b.lty(p[0])["s"] and whole(b, p[0]):
                l.add(t[4][0])
    return any(cmp_const(b, s, x) for x in l)


def whole(b, x):
    """x refers to a whole local (the list of open elements), not to a list inside an element"""
    for _ in range(4):
        rs = [st[2] for blk in b.blocks for st in blk["s"] if st[1] == [x, []] or st[1][0] == x and not st[1][1]]
        if len(rs) != 1 or rs[0][0] not in ("ref", "use"):
            return not rs
        q = rs[0][2] if rs[0][0] == "ref" else (rs[0][1].get("m") or rs[0][1].get("c"))
        if any(y[0] == "f" for y in q[1]):
            return False
        if not q[1]:
            return True
        x = q[0]
    return False


def counter(b, s, K, v):
    """the branch compares an integer local stepped up and down in the loop with a constant"""
    for x in range(b.argc + 1, len(b.locals)):
        if b.lty(x)["s"] not in ("usize", "u8", "u16", "u32", "u64", "i32", "i64"):
            continue
        if cmp_const(b, s, x):
            return True
    return False


def small(o):
    m = re.search(r"-?\d+", str(o["k"].get("i", "") if isinstance(o["k"], dict) else o["k"]))
    return m is None or abs(int(m.group())) <= LIMIT


def cmp_const(b, s, x):
    """the condition tested at block s is (local x) cmp (constant), x possibly through copies"""
    t = b.blocks[s]["t"]
    want = {(t[2].get("m") or t[2].get("c") or [None])[0]}
    src = {}
    for blk in b.blocks:
        for st in blk["s"]:
            if not st[1][1]:
                src.setdefault(st[1][0], []).append(st[2])
    for w in list(want):
        for r in src.get(w, ()):
            if r[0] == "bin" and r[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                ops = [o for o in r[2:] if isinstance(o, dict)]
                ks = [o for o in ops if "k" in o]
                vs = {(o.get("m") or o.get("c"))[0] for o in ops if o.get("m") or o.get("c")}
                more = set(vs)
                for q in vs:
                    for rr in src.get(q, ()):
                        if rr[0] == "use" and isinstance(rr[1], dict) and (rr[1].get("m") or rr[1].get("c")):
                            more.add((rr[1].get("m") or rr[1].get("c"))[0])
                if ks and x in more and all(small(o) for o in ks):
                    return True
    return False

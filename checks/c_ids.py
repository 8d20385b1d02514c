"""P28 ids inside a part: unique within their scope, and what refers to them exists."""
import re
import ctx as C
import mir
import xmldom
from affine import Affine, Aff
from c_package import PackDomain, pieces, escapers
from emit import Domain, Engine, Limit
from value import V, mk, pretty
IDS = ["P28"]

# element -> (scope within the part, attribute)
DECL = {"p:cNvPr": ("shape", "id"), "p:sldId": ("slide", "id"), "p:sldMasterId": ("master or layout", "id"), "p:sldLayoutId": ("master or layout", "id"),
        "c:idx": ("series index", "val"), "c:order": ("series order", "val"), "p:cTn": ("time node", "id")}
AXES = {"c:catAx", "c:valAx", "c:serAx", "c:dateAx"}
SERIES = {"c:ser"}
RANGE = {"p:sldId": (256, 2 ** 31 - 1), "p:sldMasterId": (2 ** 31, 2 ** 32 - 1), "p:sldLayoutId": (2 ** 31, 2 ** 32 - 1)}


class Inner(PackDomain):
    def __init__(self, **kw):
        PackDomain.__init__(self, **kw)
        self.keep = set(DECL) | {"c:axId", "c:crossAx"}
        self.cur = []

    def kept(self, st):
        return st[2] in self.keep

    def tag(self, eng, stk, tag, attrs):
        if not stk:
            self.roots.add(tag)
        up = stk[-1][0] if stk else ""
        at = {a[0]: a[1] for a in attrs if isinstance(a, tuple) and len(a) == 2}
        if tag in DECL:
            sp, an = DECL[tag]
            if tag in ("c:idx", "c:order") and up not in SERIES or tag == "p:sldId" and up != "p:sldIdLst":
                return
            if an in at:
                self.cur.append((sp, tag, at[an], eng.where()))
        elif tag == "c:axId" and "val" in at:
            self.cur.append(("axis" if up in AXES else "axis reference", tag + " in " + up, at["val"], eng.where()))
        elif tag == "c:crossAx" and "val" in at:
            self.cur.append(("axis reference", tag + " in " + up, at["val"], eng.where()))


class IdDomain(Domain):
    """an XML lexer paired with the ids written so far on the path"""
    remember = True

    def __init__(self):
        self.x = Inner()
        self.x.remember = True
        self.seen = {}      # id entry -> (file, line, function)
        self.pairs = set()
        self.twice = set()

    def entry(self, sp, tag, text, where):
        val = []
        for p in pieces(text):
            if isinstance(p, tuple):
                v = self.x.vt[p[1]] if p[1] is not None else None
                while v is not None and v.k == "ext" and len(v.a[1]) == 1 and v.a[0].split("::")[-1] in ("to_string", "as_str", "deref", "as_ref", "borrow", "to_owned", "clone"):
                    v = v.a[1][0]
                val.append(v)
            else:
                val.append(p)
        if len(val) == 1:
            v = val[0]
            if isinstance(v, str) and re.match(r"^[0-9]+$", v):
                v = int(v)
        else:
            v = None
        e = (sp, v, tag)
        self.seen.setdefault(e, set()).add((where[0].file if where[0] else "?", where[1], where[0].id if where[0] else "?"))
        return e

    def step(self, st, f, eng):
        self.x.cur = []
        outs = f(st[0])
        ids = st[1]
        for sp, tag, text, where in self.x.cur:
            e = self.entry(sp, tag, text, where)
            if not sp.endswith("reference"):
                if e in ids:
                    self.twice.add(e)
                for o in ids:
                    if o[0] == sp and o != e:
                        self.pairs.add(frozenset((o, e)))
            ids = ids | {e}
        return [(o, ids) for o in outs]

    def lit(self, eng, st, s):
        return self.step(st, lambda x: self.x.lit(eng, x, s), eng)

    def hole(self, eng, st, desc, danger, v):
        return self.step(st, lambda x: self.x.hole(eng, x, desc, danger, v), eng)

    def num(self, eng, st, v, spec):
        return self.step(st, lambda x: self.x.num(eng, x, v, spec), eng)

    def key(self, st):
        k, e = self.x.key(st[0])
        # the axes are matched path by path
        return (k, frozenset(x for x in st[1] if x[0].startswith("axis"))), (e, st[1])

    def join(self, a, b):
        return (self.x.join(a[0], b[0]), a[1] | b[1])

    def split(self, st):
        s, rest = self.x.split(st[0])
        return (s, frozenset()), (rest, st[1])

    def rejoin(self, st, rest):
        ids = rest[1]
        for e in st[1]:
            if e[0].endswith("reference"):
                continue
            if e in ids:
                self.twice.add(e)
            for o in ids:
                if o[0] == e[0] and o != e:
                    self.pairs.add(frozenset((o, e)))
        return (self.x.rejoin(st[0], rest[0]), st[1] | ids)

    def escaped(self, st, rest):
        return self.x.escaped(st[0], rest[0])

    def fragment(self, eng, st, v, how):
        pass


LEN = ("len", "count")
OPS = {"Add": lambda p, q: p + q, "Sub": lambda p, q: max(0, p - q), "Mul": lambda p, q: p * q, "Div": lambda p, q: p // q if q else 0,
       "Rem": lambda p, q: p % q if q else 0, "BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "Shl": lambda p, q: p << min(q, 63)}
CALLS = {"min": min, "max": max, "saturating_sub": lambda p, q: max(0, p - q), "saturating_add": lambda p, q: p + q, "wrapping_add": lambda p, q: p + q}


class Unknown(Exception):
    pass


class Solver:
    """ids as functions of counts, flags and loop positions"""

    def __init__(self, c):
        self.c, self.R, self.A = c, c.R, Affine(c.R)
        self.cm = {}

    def num(self, v, d=0):
        """the number a value written as an id stands for: the automatic one where the caller may fix it"""
        if not isinstance(v, V):
            return v
        for _ in range(12):
            if v.k == "cast":
                v = v.a[1]
            elif v.k == "ext" and v.a[0].split("::")[-1] in ("unwrap_or", "unwrap_or_else", "map_or", "map_or_else", "unwrap_or_default") and v.a[1] and self.given(v.a[1][0]):
                if len(v.a[1]) < 2:
                    return None
                v = v.a[1][1]
                if v.k == "clo":
                    return None
            elif v.k == "pick" or v.k == "alt":
                alts = [x for x in (v.a[1] if v.k == "pick" else v.a[0]) if self.numeric(x)]
                if len(alts) != 1:
                    return None
                v = alts[0]
            elif v.k == "chr":
                v = v.a[0]
            elif v.k == "ext" and len(v.a[1]) == 1 and v.a[0].split("::")[-1] in ("to_string", "as_str", "deref", "as_ref", "borrow", "to_owned", "clone", "from", "into"):
                v = v.a[1][0]
            else:
                break
        return v

    def numeric(self, x):
        if x.k == "ext" and x.a[0].split("::")[-1] == "to_string":
            return True
        return x.k in ("bin", "idx") or x.k == "c" and x.a[0] == "int"

    def given(self, v):
        """an option field of the content the caller built"""
        while v.k in ("elem", "f"):
            if v.k == "f" and v.a[1] not in ("Some", "Ok"):
                return True
            v = v.a[0]
        return v.k == "arg"

    def coll(self, x):
        while x.k == "ext" and len(x.a[1]) == 1 and x.a[0].split("::")[-1] in ("deref", "as_slice", "iter", "as_ref", "borrow", "iter_mut", "into_iter"):
            x = x.a[1][0]
        return x

    def canon(self, a, d=0):
        """normal form with one name per count"""
        r = Aff(a.c)
        for x, k in a.t.items():
            if x.k == "ext" and x.a[0].split("::")[-1] in LEN and len(x.a[1]) == 1:
                x = mk("ext", "len", (self.coll(x.a[1][0]),), ())
            elif x.k == "ext" and x.a[0].split("::")[-1] == "from" and len(x.a[1]) == 1 and d < 6:
                r = r.add(self.canon(self.A.of(x.a[1][0]), d + 1), k)
                continue
            r = r.add(Aff(0, {x: k}))
        return r

    def form(self, v):
        return Aff(v) if isinstance(v, int) else self.canon(self.A.of(v))

    def low(self, e, sign=-1):
        """bound of a normal form, loop positions replaced by their limits first"""
        e = Aff(e.c, e.t)
        for _ in range(30):
            ix = sorted((a for a in e.t if a.k == "idx"), key=lambda a: -a.depth)
            if not ix:
                break
            a = ix[0]
            k = e.t.pop(a)
            lo, hi = self.A.bounds(a)
            b = hi if (k > 0) == (sign > 0) else lo
            if b is None:
                return sign * float("inf")
            e = e.add(self.canon(b), k)
        for a, k in list(e.t.items()):
            if a in self.A.flag:
                e.c += k if (k > 0) == (sign > 0) else 0
            elif (k > 0) == (sign > 0):
                return sign * float("inf")
        return e.c

    # -- evaluation in a concrete deck
    def leaves(self, v, out, d=0):
        """counts and flags the value depends on (out: leaf -> candidates), loop positions in 'ix'"""
        if d > 25:
            raise Unknown
        k, a = v.k, v.a
        if k == "c":
            if a[0] not in ("int", "bool"):
                raise Unknown
        elif k == "cast":
            self.leaves(a[1], out, d + 1)
        elif k == "bin" and a[0].replace("WithOverflow", "").replace("Unchecked", "") in OPS:
            self.leaves(a[1], out, d + 1)
            self.leaves(a[2], out, d + 1)
        elif k == "app":
            x = self.inline(v)
            self.leaves(x, out, d + 1)
        elif k == "ext":
            s = a[0].split("::")[-1]
            if s in CALLS and len(a[1]) == 2:
                self.leaves(a[1][0], out, d + 1)
                self.leaves(a[1][1], out, d + 1)
            elif s == "from" and len(a[1]) == 1:
                if "From<bool>" in a[0]:
                    out[v] = (0, 1)
                else:
                    self.leaves(a[1][0], out, d + 1)
            elif s in LEN and len(a[1]) == 1:
                self.size_leaves(a[1][0], out, d + 1)
            elif s in ("is_some", "is_none", "is_empty", "any", "all"):
                out[v] = (0, 1)
            else:
                raise Unknown
        elif k == "idx":
            self.size_leaves(a[0], out, d + 1)
            out.setdefault("ix", []).append(v) if v not in out.get("ix", ()) else None
        elif k == "arg" and not v.vol:
            out[v] = (0, 40, 1, 2, 5, 12)
        elif k == "virt" or k == "f" and not v.vol and self.given(v):
            out[v] = (0, 40, 1, 2, 5, 12)
        else:
            raise Unknown

    def inline(self, v):
        x = self.R.inl(v)
        if x is v:
            x = self.R.predval(v)
        if x is None or x is v:
            raise Unknown
        return x

    def iter_of(self, s):
        """('range', lo, hi, inclusive) | ('take'|'skip', base, n) | ('all', collection)"""
        s = self.coll(s)
        while s.k == "app":
            x = self.R.inl(s)
            if x is s:
                break
            s = self.coll(x)
        if s.k == "ext":
            n = s.a[0].split("::")[-1]
            if n == "new" and len(s.a[1]) == 2 and "Range" in s.a[0]:
                return ("range", s.a[1][0], s.a[1][1], True)
            if n in ("take", "skip") and len(s.a[1]) == 2:
                return (n, s.a[1][0], s.a[1][1])
            if n in ("enumerate", "iter", "rev"):
                return self.iter_of(s.a[1][0])
            raise Unknown
        if s.k == "agg" and "Range" in str(s.a[1]) + str(s.a[0]) and len(s.a[2]) == 2:
            return ("range", s.a[2][0], s.a[2][1], "Inclusive" in str(s.a[1]) + str(s.a[0]))
        if s.k in ("f", "arg", "elem", "virt"):
            return ("all", s)
        raise Unknown

    def size_leaves(self, s, out, d):
        t = self.iter_of(s)
        if t[0] == "range":
            self.leaves(t[1], out, d)
            self.leaves(t[2], out, d)
        elif t[0] == "all":
            out[mk("ext", "len", (t[1],), ())] = (0, 40, 1, 2, 5, 12)
        else:
            self.size_leaves(t[1], out, d)
            self.leaves(t[2], out, d)

    def span(self, s, env):
        """positions of an iterator (from 0 for collections)"""
        t = self.iter_of(s)
        if t[0] == "range":
            return range(self.ev(t[1], env), self.ev(t[2], env) + (1 if t[3] else 0))
        if t[0] == "all":
            return range(env[mk("ext", "len", (t[1],), ())])
        n = len(self.span(t[1], env))
        m = self.ev(t[2], env)
        return range(min(n, m) if t[0] == "take" else max(0, n - m))

    def ev(self, v, env):
        k, a = v.k, v.a
        if v in env:
            return env[v]
        if k == "c":
            return int(a[1])
        if k == "cast":
            return self.ev(a[1], env)
        if k == "bin":
            return OPS[a[0].replace("WithOverflow", "").replace("Unchecked", "")](self.ev(a[1], env), self.ev(a[2], env))
        if k == "app":
            return self.ev(self.inline(v), env)
        s = a[0].split("::")[-1] if k == "ext" else ""
        if s in CALLS:
            return CALLS[s](self.ev(a[1][0], env), self.ev(a[1][1], env))
        if s == "from":
            return self.ev(a[1][0], env)
        if s in LEN:
            return len(self.span(a[1][0], env))
        raise Unknown

    def values(self, v, env):
        """ids written by all the rounds of the loops around it"""
        lv = {}
        self.leaves(v, lv)
        ix = sorted(lv.get("ix", ()), key=lambda x: x.depth)

        def go(i, e):
            if i == len(ix):
                yield self.ev(v, e)
                return
            for y in self.span(ix[i].a[0], e):
                yield from go(i + 1, dict(e, **{}) | {ix[i]: y})
        return list(go(0, env))

    def decks(self, vs):
        lv = {}
        for v in vs:
            if isinstance(v, V):
                self.leaves(v, lv)
        keys = [k for k in lv if k != "ix"]
        if len(keys) > 6:
            raise Unknown
        cand = [lv[k] if len(keys) <= 3 else lv[k][:4] if len(keys) <= 5 else lv[k][:3] for k in keys]

        def go(i, env):
            if i == len(keys):
                yield env
                return
            for y in cand[i]:
                yield from go(i + 1, env | {keys[i]: y})
        yield from go(0, {})

    def coincide(self, va, vb):
        """a deck in which the two ids are equal, False when there is none, None when undecided"""
        if isinstance(va, int) and isinstance(vb, int):
            return {} if va == vb else False
        if va is None or vb is None:
            return None
        d = self.form(vb).add(self.form(va), -1)
        if self.low(d) > 0 or self.low(d, 1) < 0:
            return False
        try:
            for env in self.decks((va, vb)):
                a = {va} if isinstance(va, int) else set(self.values(va, env))
                b = {vb} if isinstance(vb, int) else set(self.values(vb, env))
                if a & b:
                    return env
        except Unknown:
            return None
        return None

    def repeats(self, v):
        """an id written by several rounds of a loop: a deck in which two rounds write the same, False or None"""
        if isinstance(v, int):
            return {}
        if v is None:
            return None
        try:
            lv = {}
            self.leaves(v, lv)
            if not lv.get("ix"):
                return {}
            for env in self.decks((v,)):
                a = self.values(v, env)
                if len(a) != len(set(a)):
                    return env
        except Unknown:
            return None
        return False

    def minimum(self, v):
        return v if isinstance(v, int) else self.low(self.form(v))


def counter(v):
    """a local that is counted up: (frame, local, block, statement)"""
    return v.a if isinstance(v, V) and v.k in ("phi", "loc") else None


def unstepped(R, x, y):
    """both ids are the same local, read at two points with a path between them that does not assign it"""
    x, y = counter(x), counter(y)
    if x is None or y is None or len(x) < 4 or len(y) < 4:
        return False
    body, lo = x[0].body, x[1]
    if x[0] is not y[0] or lo != y[1]:
        return False
    D = R.defs(body)
    if D.info[lo].mutb or D.info[lo].partial or not D.info[lo].full:
        return False
    byblk = {}
    for d in D.info[lo].full:
        byblk.setdefault(d[0], []).append(d[1])
    b1, i1, b2, i2 = x[2], x[3], y[2], y[3]
    if b1 == b2 and i1 < i2 and not any(i1 <= d < i2 for d in byblk.get(b1, ())):
        return True
    if any(d >= i1 for d in byblk.get(b1, ())):
        return False
    seen, todo = set(), list(body.succ(b1))
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == b2 and not any(d < i2 for d in byblk.get(b, ())):
            return True
        if not byblk.get(b):
            todo.extend(body.succ(b))
    return False


def fixed_ids(c, n, n2):
    """ids the library itself fixes for the shapes of a diagram: counted up between two shapes, and given to all or none"""
    P, R = c.P, c.R
    setters = {b.id for b in P.bodies.values() if re.search(r"[^A-Za-z]Shape::with_id$", b.id) and b.argc == 2}
    work = [(s, 2) for s in sorted(setters)]
    sites, done = {}, set()
    while work:
        fn, ai = work.pop()
        if (fn, ai) in done:
            continue
        done.add((fn, ai))
        for b, bi, t in c.call_sites(fn):
            if len(t[3]) < ai:
                continue
            fr = R.root(b)
            v = R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][ai - 1])
            if v.k == "arg":
                work.append((b.id, v.a[2]))
            else:
                sites.setdefault(b.id, []).append((v, bi, t[0], fn))
    rebased(c, set(sites), n2)
    for f, l in sorted(sites.items()):
        b = P.body(f)
        n[0] += len(l)
        for v, bi, line, fn in l:
            for w, bj, line2, fn2 in l:
                if bi == bj and not (counter(v) or v.k == "c"):
                    continue
                if v.k == "c" and w.k == "c":
                    same = v.a[1] == w.a[1] and reaches(b, bi, bj)
                else:
                    same = unstepped(R, v, w) and reaches(b, bi, bj)
                if same:
                    c.violate("fixed|%s|%s" % (C.short_fn(f), fn2.split("::")[-1]), "two shapes of %s are given the same id" % C.short_fn(f),
                              "%s:%s in %s" % (b.file, line2, f), ["%s:%s" % (b.file, line), "%s:%s" % (b.file, line2)])
        fr = R.root(b)
        has = {x for x in P.bodies if x in setters or any(y in setters for y in P.reachable([x]))}
        for bi in sorted(b.reach()):
            t = b.blocks[bi]["t"]
            if t[1] != "call" or len(t[3]) != 2 or not (mir.callee(t) or "").endswith("::push") or "Vec" not in (mir.callee(t) or ""):
                continue
            v = R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][1])
            x, fixed, new = v, False, False
            for _ in range(30):
                if x.k != "app":
                    break
                g = x.a[0]
                if g.body.id in has:
                    fixed = True
                    break
                if re.search(r"[^A-Za-z]Shape::new$", g.body.id):
                    new = True
                    break
                if not g.args:
                    break
                x = g.args[0]
            if new and not fixed:
                c.violate("mixed|%s" % C.short_fn(f), "%s gives some of its shapes an id and leaves this one to be numbered automatically, from the same numbers" % C.short_fn(f),
                          "%s:%s in %s" % (b.file, t[0], f))


def rebased(c, fixers, n):
    """shapes whose ids a diagram numbers from its own start are renumbered before they join shapes a slide already has"""
    P = c.P
    below = P.reachable(sorted(fixers))
    up = set(fixers)
    todo = sorted(fixers)
    while todo:
        f = todo.pop()
        for b, bi, t in c.call_sites(f):
            if b.id not in up:
                up.add(b.id)
                todo.append(b.id)
    for f in sorted(up - set(fixers)):
        b = P.body(f)
        joins = None
        for bi in sorted(b.reach()):
            for s in b.blocks[bi]["s"]:
                r = s[2]
                if r[0] == "ref" and r[1] == 1 and r[2][1] and r[2][1][-1][0] == "f" and r[2][1][-1][2] == "shapes" and r[2][1][-1][3].endswith("::SlideContent"):
                    joins = joins or s[0]
        if joins is None:
            continue
        n[0] += 1
        wr = set()
        for x in set(P.reachable([f])) - set(below):
            xb = P.body(x)
            for bi in sorted(xb.reach()) if xb is not None and xb.file.startswith("src/cli/") else ():
                for s in xb.blocks[bi]["s"]:
                    if s[1][1] and s[1][1][-1][0] == "f" and s[2][0] != "dead":
                        wr.add(s[1][1][-1][2])
                t = xb.blocks[bi]["t"]
                if t[1] == "call" and t[4][1] and t[4][1][-1][0] == "f":
                    wr.add(t[4][1][-1][2])
                for s in xb.blocks[bi]["s"]:
                    if s[2][0] == "ref" and s[2][1] == 1 and s[2][2][1] and s[2][2][1][-1][0] == "f":
                        wr.add(s[2][2][1][-1][2])
                    if s[2][0] == "ref" and s[2][1] == 1:
                        wr |= {q[2] for q in s[2][2][1] if q[0] == "f"}
        for fld in ("id", "start_shape_id", "end_shape_id"):
            if fld not in wr:
                c.violate("rebase|%s|%s" % (C.short_fn(f), fld), "%s adds the shapes of a diagram to those of a slide and keeps the `%s` the diagram counted from its own start" % (C.short_fn(f), fld),
                          "%s:%s in %s" % (b.file, joins, f))


def reaches(b, x, y):
    seen, todo = set(), list(b.succ(x))
    while todo:
        z = todo.pop()
        if z == y:
            return True
        if z not in seen:
            seen.add(z)
            todo.extend(b.succ(z))
    return False


def show(e):
    v = e[1]
    return str(v) if not isinstance(v, V) else pretty(v)[:60]

def run(c):
    P = c.P
    esc = escapers(P)
    S = Solver(c)
    n_parts = 0
    ids, pairs, loops, refs, und = set(), set(), set(), set(), set()
    bound = {}                  # ids shared by several parts
    counters = 0

    def where(w):
        return "%s:%s in %s" % w

    for b, fr, bi, p, v in c.zip_writes() + c.add_part_sites():
        if c.xml_suffix(p) is False or c.opaque(v):
            continue
        line = b.blocks[bi]["t"][0]
        part = C.tpretty(c.templates(p)[0]) if p is not None and c.templates(p) else "?"
        kind = re.sub(r"#?\{[^}]*\}+", "#", part).replace("##", "#").strip(")")
        kind = re.sub(r"#[^.]*", "#", kind)
        outs = None
        for remember in (True, False):
            dom = IdDomain()
            dom.remember = remember
            eng = Engine(P, c.R, dom)
            eng.ident = esc
            eng.stack = [(b, line)]
            try:
                eng.profiled(lambda e: e.emit(v, ((), frozenset())))
                dom.twice, dom.pairs = set(), set()
                outs = eng.emit(v, ((xmldom.start(), frozenset()), frozenset()))
                break
            except Limit as e:
                if not remember:
                    c.undec("%s: contents of %s: %s" % (b.id, part, e))
        if outs is None:
            continue
        n_parts += 1

        def site(e):
            return where(sorted(dom.seen[e])[0])

        for e in dom.seen:
            ids |= {(e[0], w) for w in dom.seen[e]}
            if e[2] in RANGE and S.num(e[1]) is not None:
                lo, hi = RANGE[e[2]]
                m = S.minimum(S.num(e[1]))
                if lo > m > -1 or isinstance(e[1], int) and e[1] > hi:
                    c.violate("range|%s|%s" % (e[2], m), "the id of <%s> can be %s: the format reserves %d..%d" % (e[2], m, lo, hi), site(e))
                if e[2] != "p:sldId":
                    bound.setdefault(S.form(S.num(e[1])).key(), (e, site(e)))
        for e in dom.twice:
            v1 = S.num(e[1])
            loops.add((kind, e[0], show(e)))
            if counter(e[1]):
                counters += 1
                if unstepped(c.R, e[1], e[1]):
                    c.violate("repeated|%s|%s|%s" % (kind, e[0], show(e)), "%s id %s is written again before it is counted up" % (e[0], show(e)), site(e))
                continue
            r = S.repeats(v1)
            if r is None:
                und.add("%s: %s id %s written in a loop" % (kind, e[0], show(e)))
            elif r is not False:
                c.violate("repeated|%s|%s|%s" % (kind, e[0], show(e)), "%s id %s can be written twice into %s" % (e[0], show(e), kind), site(e),
                          [where(w) for w in sorted(dom.seen[e])])
        for pr in dom.pairs:
            x, y = sorted(pr, key=lambda e: (isinstance(e[1], int), show(e)))
            pairs.add((kind, x[0], show(x), show(y)))
            if counter(x[1]) and counter(y[1]):
                counters += 1
                r = {} if unstepped(c.R, x[1], y[1]) or unstepped(c.R, y[1], x[1]) else False
            else:
                r = S.coincide(S.num(x[1]), S.num(y[1]))
            if r is None:
                und.add("%s: %s ids %s and %s" % (kind, x[0], show(x), show(y)))
            elif r is not False:
                deck = ", ".join("%s = %s" % (pretty(k)[-60:], n) for k, n in r.items())
                c.violate("clash|%s|%s|%s|%s" % (kind, x[0], show(x), show(y)),
                          "%s ids %s and %s of %s are equal%s" % (x[0], show(x), show(y), kind, " when " + deck if deck else ""),
                          site(x), [site(x), site(y)])
        for st, f in outs:
            axes = {e for e in st[1] if e[0] == "axis"}
            used = {e for e in st[1] if e[0] == "axis reference"}
            if not axes and not used:
                continue
            if any(not isinstance(e[1], int) for e in axes | used):
                und.add("%s: axes" % kind)
                continue
            for e in used:
                refs.add((e[2], e[1], site(e)))
                if not any(a[1] == e[1] for a in axes):
                    c.violate("axis|%s|%s" % (e[2], e[1]), "%s refers to axis %s, which %s does not declare" % (e[2], e[1], kind), site(e))
            for a in axes:
                if not any(e[1] == a[1] for e in used if e[2].startswith("c:axId")):
                    c.violate("unused axis|%s|%s" % (a[2], a[1]), "no chart of %s uses the axis %s declared here" % (kind, a[1]), site(a))
    bl = list(bound.values())
    for i, (x, wx) in enumerate(bl):
        for y, wy in bl[i + 1:]:
            if x[2] != y[2]:
                r = S.coincide(S.num(x[1]), S.num(y[1]))
                if r is not None and r is not False:
                    c.violate("clash|masters and layouts|%s|%s" % (show(x), show(y)), "a master and a layout get the same id (%s and %s)" % (show(x), show(y)), wx, [wx, wy])
    nfix, njoin = [0], [0]
    fixed_ids(c, nfix, njoin)
    c.coverage["functions_adding_numbered_shapes_to_a_slide"] = njoin[0]
    c.coverage["fixed_id_sites"] = nfix[0]
    for u in und:
        c.undec(u)
    c.floor("package_parts_analysed", n_parts, 30)
    c.floor("id_sites", len(ids), 25)
    c.coverage["ids_in_loops"] = len(loops)
    c.coverage["pairs_of_ids_on_one_path"] = len(pairs)
    c.coverage["axis_references"] = len(refs)
    c.coverage["counted_ids"] = counters
    c.coverage["rule"] = ("along every path of a part writer the ids of one scope are pairwise different as functions of the counts of elements; "
                          "ids written in loops differ from round to round; axis references name declared axes")
    c.explanation = ("abstract interpretation of every part writer with an XML lexer that collects id attributes as symbolic values; pairs on one path are separated "
                     "by linear bounds, or refuted by a small deck in which they coincide; counters need an assignment between two uses")
    c.assumptions += ["ids the caller fixes (Shape::id) are the caller's", "pairs listed as undecided are not judged"]

"""Forward dataflow over MIR for positions in texts and lists.

Numbers are affine forms over atoms (search results, lengths, loop values, merge values).  Texts are views
(root, lo, hi) of an immutable root; every operation that yields a part of a text yields a view of the same
root, so that a position found in one view can be judged in another.  Branch conditions become facts.
Every place where a text is cut at a byte position becomes an obligation, decided by a small prover:
 a position is a character boundary when it is 0, the length, the place (or the end) of a match, the end of a
 character, inside a text known to be ASCII, tested by is_char_boundary, or a merge of such positions
 (coinductively through loops)."""
import mir

ZERO = (0, frozenset())
UINTS = {"usize", "u8", "u16", "u32", "u64", "u128"}
INTS = {"isize", "i8", "i16", "i32", "i64", "i128"}


def K(c):
    return (c, frozenset())


def A(atom):
    return (0, frozenset([(atom, 1)]))


def add(x, y, k=1):
    if not y[1]:
        return (x[0] + k * y[0], x[1])
    d = dict(x[1])
    for a, c in y[1]:
        v = d.get(a, 0) + k * c
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return (x[0] + k * y[0], frozenset(d.items()))


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    return (x[0] * k, frozenset((a, c * k) for a, c in x[1])) if k else ZERO


def subst(x, atom, y):
    d = dict(x[1])
    k = d.pop(atom)
    return add((x[0], frozenset(d.items())), y, k)


def atoms(x):
    return [a for a, _ in x[1]]


def mentions(v, pred):
    """does the nested tuple mention an atom satisfying pred"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and pred(x):
                return True
            st.extend(x)
    return False


TRUE, FALSE = ("c", ("true",)), ("c", ("false",))


def n_(x):
    return ("n", x)


def opt(payload, facts=frozenset()):
    return ("en", (("None", (), frozenset()), ("Some", (payload,), facts)))


def some(payload):
    return ("en", (("Some", (payload,), frozenset()),))


NONE = ("en", (("None", (), frozenset()),))


class Overrun(Exception):
    pass


class State:
    __slots__ = ("env", "facts")

    def __init__(self, env=None, facts=frozenset()):
        self.env, self.facts = dict(env or {}), facts

    def copy(self):
        return State(self.env, self.facts)


def negate(c):
    k = c[0]
    if k == "true":
        return ("false",)
    if k == "false":
        return ("true",)
    if k == "not":
        return c[1]
    return ("not", c)


class Engine:
    """analyses one top-level function (closures and small callees inlined)"""

    def __init__(self, P, fn, inline=None, maxsteps=60000):
        self.P, self.fn = P, fn
        self.meta, self.phi, self.obl = {}, {}, {}
        self.bodies = {}
        self.loops = {}
        self.steps, self.maxsteps = 0, maxsteps
        self.inline = inline or (lambda b, d: False)
        self.rootdef = {}
        self.ran = set()

    # ---------------------------------------------------------------- syms
    def mksym(self, path, ty, st=None):
        s = ty["s"] if isinstance(ty, dict) else ty
        if st is not None:
            h = st.env.get(("h", path))
            if h is not None:
                return h
        t = s
        while True:
            t = t.strip()
            if t.startswith("&"):
                t = t[1:].strip()
                if t.startswith("'"):
                    t = t.split(" ", 1)[1] if " " in t else t
                if t.startswith("mut "):
                    t = t[4:]
            elif t.startswith("std::boxed::Box<") and t.endswith(">"):
                t = t[16:-1]
            else:
                break
        if t in UINTS:
            return n_(A(("sym", path)))
        if t in ("str", "std::string::String") or t.startswith("std::borrow::Cow<") and "str>" in t or t.startswith("pulldown_cmark::CowStr"):
            return ("s", ("sym", path), ZERO, None)
        if t == "bool":
            return ("c", ("sym", path))
        if t == "char":
            return ("ch", ("sym", path), None)
        if t.startswith("std::vec::Vec<") or t.startswith("[") and t.endswith("]") and ";" not in t.rsplit("]", 1)[0].rsplit("[", 1)[-1]:
            return ("q", ("sym", path), ZERO, None)
        if t.startswith("[") and t.endswith("]") and ";" in t:
            n = t[:-1].rsplit(";", 1)[1].strip()
            if n.isdigit():
                return ("q", ("sym", path), ZERO, K(int(n)))
        return ("sym", path)

    def typed(self, val, ty, st=None):
        """an opaque value seen through the type of the place that receives it"""
        if val[0] == "sym":
            return self.mksym(val[1], ty, st)
        return val

    @staticmethod
    def length(v):
        """length of a view (text, bytes, list) as affine"""
        _, root, lo, hi = v
        if hi is None:
            hi = K(len(root[1].encode())) if root[0] == "K" else A(("len", root))
        return sub(hi, lo)

    @staticmethod
    def end(v):
        _, root, lo, hi = v
        if hi is None:
            hi = K(len(root[1].encode())) if root[0] == "K" else A(("len", root))
        return hi

    def norm(self, x):
        """fold len(K text)"""
        for a, c in x[1]:
            if a[0] == "len" and a[1][0] == "K":
                return self.norm(subst(x, a, K(len(a[1][1].encode()))))
        return x

    # ---------------------------------------------------------------- prover
    def needle_ok(self, nd, d):
        if d == ZERO:
            return True
        if nd is None:
            return False
        k = nd[0]
        if k == "str":
            if d[1]:
                return False
            b = nd[1].encode()
            return 0 <= d[0] <= len(b) and (d[0] == len(b) or (b[d[0]] & 0xC0) != 0x80)
        if k == "chars":
            ls = {len(c.encode()) for c in nd[1]}
            return not d[1] and len(ls) == 1 and d[0] in ls
        if k == "asc":
            return d == K(1)
        if k == "view":
            return d == sub(nd[3], nd[2])
        if k == "clen":
            return d == A(nd[1])
        return False

    def needle_len(self, nd):
        """(lower bound) length"""
        if nd is None:
            return ZERO
        k = nd[0]
        if k == "str":
            return K(len(nd[1].encode()))
        if k == "chars":
            return K(min(len(c.encode()) for c in nd[1])) if nd[1] else ZERO
        if k == "asc":
            return K(1)
        if k == "any":
            return K(1)
        if k == "view":
            return sub(nd[3], nd[2])
        if k == "clen":
            return A(nd[1])
        return ZERO

    def first_chars(self, nd):
        if nd and nd[0] == "str" and nd[1]:
            return {nd[1][0]}
        if nd and nd[0] == "chars":
            return set(nd[1])
        return None

    def content(self, nd):
        if nd and nd[0] == "str":
            return set(nd[1])
        if nd and nd[0] == "chars":
            return set(nd[1])
        return None

    def inloop(self, head, x):
        """is x (a root or an atom) defined inside the loop of head = (frame, block)?"""
        loop = self.loops.get(head)
        if not loop:
            return False
        d = x
        if d[0] in ("R", "a", "phi", "sym", "len"):
            if d[0] == "len":
                return self.inloop(head, d[1])
            if d[0] == "sym":
                p = d[1]
                if p and p[0] == "at":
                    fr, bb = p[1], p[2]
                else:
                    return False
            else:
                fr, bb = d[1], d[2]
            if fr == head[0]:
                return bb in loop
            # a deeper frame called from inside the loop
            n = len(head[0])
            if len(fr) > n and fr[:n] == head[0]:
                return fr[n][1] in loop
            return False
        return False

    def prove_b(self, root, E, facts, d=7, assume=frozenset()):
        E = self.norm(E)
        if E == ZERO or E == A(("len", root)):
            return True
        if root[0] == "K":
            if not E[1]:
                b = root[1].encode()
                return 0 <= E[0] <= len(b) and (E[0] == len(b) or (b[E[0]] & 0xC0) != 0x80)
            if all(ord(c) < 128 for c in root[1]) and self.prove_ge(E, facts, min(3, d - 1)) and \
                    self.prove_ge(sub(K(len(root[1])), E), facts, min(3, d - 1)):
                return True
        if ("b", root, E) in facts or ("b", root, E) in assume:
            return True
        if d <= 0:
            return False
        for f in facts:
            if f[0] == "m" and f[1] == root and self.needle_ok(f[3], sub(E, f[2])):
                return True
        for f in facts:
            if f[0] == "asc" and f[1] == root:
                hi = f[3] if f[3] is not None else self.end(("s", root, ZERO, None))
                if self.prove_ge(sub(E, f[2]), facts, min(4, d - 1)) and self.prove_ge(sub(hi, E), facts, min(4, d - 1)):
                    return True
        for a, c in E[1]:
            if c != 1:
                continue
            m = self.meta.get(a)
            if m and m[0] == "pos":
                _, r2, base, nd, hi = m
                if r2 == root and self.needle_ok(nd, sub(sub(E, base), A(a))):
                    return True
        for a, c in E[1]:
            if c != 1:
                continue
            m = self.meta.get(a)
            if m and m[0] == "alts":
                if all(self.prove_b(root, subst(E, a, x), facts, d - 1, assume) for x in m[1]):
                    return True
            if a in self.phi:
                inc, head = self.phi[a], (a[1], a[2])
                if self.loops.get(head):
                    if self.inloop(head, root) and not self.rphi(root):
                        continue
                    if any(self.inloop(head, x) for x in atoms(E) if x != a):
                        continue
                as2 = assume | {("b", root, E)}
                ok = bool(inc)
                for v, fs in self.edges_of(a, facts):
                    if not self.prove_b(root, subst(E, a, v), fs, d - 1, as2):
                        ok = False
                        break
                if ok:
                    return True
        # forced ends
        if E[1]:
            if self.prove_ge(scale(E, -1), facts, min(2, d - 1)):
                return True
            L = A(("len", root))
            if self.prove_ge(sub(E, L), facts, min(2, d - 1)) and self.prove_ge(sub(L, E), facts, min(2, d - 1)):
                return True
        # equal to a known boundary by an equality of the path
        return False

    def rphi(self, root):
        return False

    def ubs(self, a):
        m = self.meta.get(a)
        out = []
        if m:
            if m[0] == "pos":
                _, r, base, nd, hi = m
                out.append(sub(sub(hi, base), self.needle_len(nd)))
            elif m[0] == "bnd":
                out += list(m[2])
            if m[0] == "alts" and m[2] == "min":
                out += list(m[1])
        return out

    def lbs(self, a, facts):
        m = self.meta.get(a)
        out = []
        if m:
            if m[0] == "pos":
                _, r, base, nd, hi = m
                fc = self.first_chars(nd)
                if fc:
                    for r2, p2, nd2 in self.matches(facts, base):
                        if r2 == r and p2 == base:
                            ct = self.content(nd2)
                            if ct is not None and not (ct & fc):
                                out.append(self.needle_len(nd2))
            elif m[0] == "bnd":
                out += list(m[1])
            if m[0] == "alts" and m[2] == "max":
                out += list(m[1])
        return out

    def matches(self, facts, base):
        for f in facts:
            if f[0] == "m":
                yield f[1], f[2], f[3]
        for a, c in base[1]:
            m = self.meta.get(a)
            if c == 1 and m and m[0] == "pos":
                yield m[1], add(m[2], A(a)), m[3]

    def prove_ge(self, D, facts, d=5, assume=frozenset()):
        D = self.norm(D)
        if D[0] >= 0 and all(c > 0 for _, c in D[1]):
            return True
        if d <= 0:
            return False
        if not D[1]:
            return False
        if D in assume:
            return True
        neg = [a for a, c in D[1] if c < 0]
        pos = [(a, c) for a, c in D[1] if c > 0]
        for f in facts:
            if f[0] != "ge":
                continue
            F = f[1]
            if F == D:
                return True
            fd = dict(F[1])
            if any(fd.get(a, 0) < 0 for a in neg) or (not neg and any(fd.get(a, 0) > 0 for a, _ in pos)):
                D2 = sub(D, F)
                if len(D2[1]) <= len(D[1]) + 1 and D2[0] <= D[0] + 64 and self.prove_ge(D2, facts, d - 1, assume):
                    return True
        for a, c in D[1]:
            if c < 0:
                for U in self.ubs(a):
                    if a not in atoms(U) and self.prove_ge(subst(D, a, U), facts, d - 1, assume):
                        return True
            else:
                for L in self.lbs(a, facts):
                    if a not in atoms(L) and self.prove_ge(subst(D, a, L), facts, d - 1, assume):
                        return True
                if a[0] == "len" and c == 1:
                    r = a[1]
                    for f in facts:
                        if f[0] == "b" and f[1] == r and self.prove_ge(subst(D, a, f[2]), facts, d - 2, assume):
                            return True
                        if f[0] == "m" and f[1] == r and \
                                self.prove_ge(subst(D, a, add(f[2], self.needle_len(f[3]))), facts, d - 2, assume):
                            return True
                    E = scale(subst(D, a, ZERO), -1)
                    if E[1] and self.prove_b(r, E, facts, d - 2):
                        return True
            m = self.meta.get(a)
            if m and m[0] == "alts":
                if all(self.prove_ge(subst(D, a, x), facts, d - 1, assume) for x in m[1]):
                    return True
            if a in self.phi:
                inc, head = self.phi[a], (a[1], a[2])
                if self.loops.get(head) and any(self.inloop(head, x) for x in atoms(D) if x != a):
                    continue
                as2 = assume | {D}
                if inc and all(self.prove_ge(subst(D, a, v), fs, d - 1, as2) for v, fs in self.edges_of(a, facts)):
                    return True
        return False

    def edges_of(self, a, facts):
        """(value, facts) of the ways into a merge value that agree with the facts known now"""
        inc = self.phi[a]
        if self.loops.get((a[1], a[2])):
            return inc
        out = []
        for v, fs in inc:
            if any(self.contrary(f) in fs for f in facts if f[0] in ("ge", "bool")):
                continue
            out.append((v, fs | facts))
        return out

    @staticmethod
    def contrary(f):
        if f[0] == "ge":
            return ("ge", add(scale(f[1], -1), K(-1)))
        return ("bool", f[1], not f[2])

    def entails(self, facts, f):
        if f in facts:
            return True
        if f[0] == "ge":
            return self.prove_ge(f[1], facts, 2)
        if f[0] == "b":
            return self.prove_b(f[1], f[2], facts, 3)
        return False

    # ---------------------------------------------------------------- joins
    def joinfacts(self, sets):
        sets = list(sets)
        if len(sets) == 1:
            return sets[0]
        first = sets[0]
        if all(s == first for s in sets):
            return first
        inter = frozenset.intersection(*sets)
        extra = set()
        seen = set(inter)
        if self.steps < self.maxsteps // 2:
            for s in sets:
                for f in s:
                    if f in seen:
                        continue
                    seen.add(f)
                    if f[0] in ("ge", "b") and all(self.entails(o, f) for o in sets):
                        extra.add(f)
        return inter | extra if extra else inter

    def joinval(self, vals, key):
        """vals: [(value, facts)]; key = (frame, block, slot)"""
        v0 = vals[0][0]
        if all(v == v0 for v, _ in vals):
            return v0
        ks = {v[0] for v, _ in vals}
        fr, bb, slot = key
        if ks == {"n"}:
            a = ("phi", fr, bb, slot)
            self.phi[a] = [(v[1], fs) for v, fs in vals]
            return n_(A(a))
        if ks <= {"s", "by"} or ks == {"q"}:
            k = "q" if "q" in ks else "s" if "s" in ks else "by"
            roots = {v[1] for v, _ in vals}
            if len(roots) == 1:
                r = v0[1]
                lo = self.joinval([(n_(v[2]), fs) for v, fs in vals], (fr, bb, slot + ("lo",)))[1]
                hi = None
                if any(v[3] is not None for v, _ in vals):
                    hi = self.joinval([(n_(self.end(v)), fs) for v, fs in vals], (fr, bb, slot + ("hi",)))[1]
                return (k, r, lo, hi)
            return (k, ("phi", fr, bb, slot), ZERO, None)
        if ks == {"en"}:
            names = []
            for v, _ in vals:
                for nm, _, _ in v[1]:
                    if nm not in names:
                        names.append(nm)
            out = []
            for nm in sorted(names):
                have = [(p, vf | fs) for v, fs in vals for n2, p, vf in v[1] if n2 == nm]
                ln = {len(p) for p, _ in have}
                if len(ln) != 1:
                    p = ()
                else:
                    p = tuple(self.joinval([(x[0][i], x[1]) for x in have], (fr, bb, slot + (nm, i)))
                              for i in range(ln.pop()))
                out.append((nm, p, self.joinfacts([x[1] for x in have])))
            return ("en", tuple(out))
        if ks == {"tup"} and len({len(v[1]) for v, _ in vals}) == 1:
            return ("tup", tuple(self.joinval([(v[1][i], fs) for v, fs in vals], (fr, bb, slot + (i,)))
                                 for i in range(len(v0[1]))))
        if ks == {"adt"} and len({(v[1], len(v[2])) for v, _ in vals}) == 1:
            return ("adt", v0[1], tuple(self.joinval([(v[2][i], fs) for v, fs in vals], (fr, bb, slot + (i,)))
                                        for i in range(len(v0[2]))))
        if ks == {"c"}:
            return ("c", ("alt", tuple((self.flatc(v[1]), fs) for v, fs in vals)))
        if ks == {"ch"}:
            return ("ch", ("phi", fr, bb, slot), None)
        return ("sym", ("at", fr, bb, ("phi",) + slot))

    def flatc(self, c):
        if c[0] == "alt":
            return ("sym", ("flat",))
        return c

    def join(self, fr, bb, states, back):
        """states: list of (state, is_back_edge)"""
        isloop = any(back)
        sts = []
        for s, b in zip(states, back):
            if b:
                def stale(x):
                    return x[0] == "phi" and x[1] == fr and x[2] == bb
                s = State(s.env, frozenset(f for f in s.facts if not mentions(f, stale)))
            sts.append(s)
        if len(sts) == 1:
            return sts[0].copy()
        r = State()
        keys = set(sts[0].env)
        for s in sts[1:]:
            keys &= set(s.env)
        heap = set()
        for s in sts:
            heap |= {k for k in s.env if k[0] == "h"}
        for k in sorted(keys | heap, key=repr):
            vals = []
            for s in sts:
                v = s.env.get(k)
                if v is None:
                    v = self.heapdefault(k, next(x.env[k] for x in sts if k in x.env))
                vals.append((v, s.facts))
            r.env[k] = self.joinval(vals, (fr, bb, (k,)))
        r.facts = self.joinfacts([s.facts for s in sts])
        return r

    def heapdefault(self, k, other):
        p = k[1]
        if other[0] == "n":
            return n_(A(("sym", p)))
        if other[0] in ("s", "q", "by"):
            return (other[0], ("sym", p), ZERO, None)
        return ("sym", p)

    # ---------------------------------------------------------------- conditions
    def assume(self, st, c, truth):
        """facts of c being truth; returns a new fact set or None when impossible"""
        k = c[0]
        if k == "true":
            return st.facts if truth else None
        if k == "false":
            return None if truth else st.facts
        if k == "not":
            return self.assume(st, c[1], not truth)
        add_ = []
        if k == "sym":
            add_.append(("bool", c, truth))
            if ("bool", c, not truth) in st.facts:
                return None
        if k == "cmp":
            op, x, y = c[1], c[2], c[3]
            if not truth:
                op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}[op]
            d = sub(y, x)
            if not d[1]:
                v = d[0]
                ok = {"lt": v > 0, "le": v >= 0, "gt": v < 0, "ge": v <= 0, "eq": v == 0, "ne": v != 0}[op]
                return st.facts if ok else None
            if op == "lt":
                add_.append(("ge", add(d, K(-1))))
            elif op == "le":
                add_.append(("ge", d))
            elif op == "gt":
                add_.append(("ge", add(scale(d, -1), K(-1))))
            elif op == "ge":
                add_.append(("ge", scale(d, -1)))
            elif op == "eq":
                add_ += [("ge", d), ("ge", scale(d, -1))]
            else:
                # x != y with x - y known nonnegative
                for z in (d, scale(d, -1)):
                    if self.prove_ge(z, st.facts, 2):
                        add_.append(("ge", add(z, K(-1))))
        elif k == "fact":
            if truth:
                add_ += list(c[1])
        elif k == "alt":
            outs = []
            for v, fs in c[1]:
                s2 = State({}, fs)
                r = self.assume(s2, v, truth)
                if r is not None:
                    outs.append(r)
            if not outs:
                return None
            return st.facts | self.joinfacts(outs)
        elif k == "and":
            if truth:
                f = self.assume(st, c[1], True)
                return None if f is None else self.assume(State({}, f), c[2], True)
        return st.facts | frozenset(add_) if add_ else st.facts

    # ---------------------------------------------------------------- places
    def load(self, st, fr, place):
        loc, projs = place
        v = st.env.get((fr, loc))
        body = self.bodies[fr]
        if v is None:
            v = self.mksym(("at", fr, -1, loc), body.lty(loc), st)
        return self.project(st, fr, v, projs, body)

    def project(self, st, fr, v, projs, body):
        for i, p in enumerate(projs):
            k = p[0]
            if k == "*":
                n = 0
                if v[0] == "p":
                    v = self.loadp(st, v)
                elif v[0] == "sym":
                    h = st.env.get(("h", v[1]))
                    if h is not None:
                        v = h
            elif k == "f":
                v = self.field(st, v, p, body)
            elif k == "d":
                name = p[2] if len(p) > 2 else p[1]
                if v[0] == "p":
                    v = self.loadp(st, v)
                if v[0] == "en":
                    hit = [x for x in v[1] if x[0] == name]
                    v = ("pay", hit[0][1]) if hit else ("sym", ("dead",))
                elif v[0] == "sym":
                    v = ("sym", v[1] + (name,))
            elif k == "i":
                idx = st.env.get((fr, p[1]))
                if v[0] == "p":
                    v = self.loadp(st, v)
                v = self.element(v, idx[1] if idx and idx[0] == "n" else None, body, st)
            elif k == "ci":
                if v[0] == "p":
                    v = self.loadp(st, v)
                off = K(p[1]) if not p[3] else None
                if off is None and v[0] in ("q", "by"):
                    off = sub(self.length(v), K(p[1]))
                v = self.element(v, off, body, st)
            elif k == "sub":
                if v[0] in ("q", "by") and not p[3]:
                    v = (v[0], v[1], add(v[2], K(p[1])), add(v[2], K(p[2])))
                elif v[0] in ("q", "by"):
                    v = (v[0], v[1], add(v[2], K(p[1])), sub(self.end(v), K(p[2])))
                else:
                    v = ("sym", ("dead",))
            else:
                pass
        return v

    def element(self, v, idx, body, st):
        if v[0] == "by" and idx is not None:
            return ("byte", v[1], add(v[2], idx))
        if v[0] == "tup" and idx is not None and not idx[1] and 0 <= idx[0] < len(v[1]):
            return v[1][idx[0]]
        if v[0] == "arr":
            if idx is not None and not idx[1] and 0 <= idx[0] < len(v[1]):
                return v[1][idx[0]]
            return ("sym", ("el", v[1][:3], idx))
        if v[0] == "q":
            return ("sym", ("el", v[1], idx))
        if v[0] == "sym":
            return ("sym", v[1] + (("el", idx),))
        return ("sym", ("el?",))

    def field(self, st, v, p, body):
        i, name, tn = p[1], p[2], p[4]
        if v[0] == "p":
            v = self.loadp(st, v)
        if v[0] == "tup" or v[0] == "pay":
            if i < len(v[1]):
                return v[1][i]
            return self.mksym(("nofield", v[0], i), body.ty(tn), st)
        if v[0] == "adt":
            if i < len(v[2]):
                return v[2][i]
        if v[0] == "clo":
            if i < len(v[2]):
                return v[2][i]
        if v[0] == "sym":
            return self.mksym(v[1] + (name,), body.ty(tn), st)
        return self.mksym(("fld", v, name), body.ty(tn), st)

    def loadp(self, st, ptr, n=0):
        _, fr, loc, projs = ptr
        if n > 12:
            return ("sym", ("deep",))
        v = st.env.get((fr, loc))
        body = self.bodies[fr]
        if v is None:
            v = self.mksym(("at", fr, -1, loc), body.lty(loc), st)
        if not projs:
            return v
        v = self.project(st, fr, v, projs, body)
        return v

    def deref(self, st, v):
        n = 0
        while v[0] == "p" and n < 12:
            v = self.loadp(st, v)
            n += 1
        if v[0] == "sym":
            h = st.env.get(("h", v[1]))
            if h is not None:
                return h
        return v

    def store(self, st, fr, place, val):
        loc, projs = place
        if not projs:
            st.env[(fr, loc)] = self.typed(val, self.bodies[fr].lty(loc), st)
            return
        cur = st.env.get((fr, loc))
        if projs[0][0] == "*" and cur is not None and cur[0] == "p":
            self.store(st, cur[1], [cur[2], list(cur[3]) + list(projs[1:])], val)
            return
        if len(projs) == 1 and projs[0][0] == "f" and cur is not None and cur[0] in ("tup", "adt"):
            xs = list(cur[1] if cur[0] == "tup" else cur[2])
            i = projs[0][1]
            if i < len(xs):
                xs[i] = val
                st.env[(fr, loc)] = ("tup", tuple(xs)) if cur[0] == "tup" else ("adt", cur[1], tuple(xs))
                return
        # heap slot
        base = cur
        body = self.bodies[fr]
        if base is None:
            base = self.mksym(("at", fr, -1, loc), body.lty(loc), st)
        for p in projs[:-1]:
            base = self.project(st, fr, base, [p], body)
            if base[0] == "p" and p[0] != "*":
                base = self.loadp(st, base)
        last = projs[-1]
        if last[0] == "*":
            if base[0] == "p":
                self.store(st, base[1], [base[2], list(base[3])], val)
            elif base[0] == "sym":
                self.kill(st, base[1])
                st.env[("h", base[1])] = val
            elif base[0] in ("s", "q", "by", "n", "c", "ch"):
                # a reference whose pointee is the value itself (parameter of reference type)
                self.rebind(st, base, val)
            return
        if base[0] == "sym" and last[0] == "f":
            path = base[1] + (last[2],)
            self.kill(st, path)
            st.env[("h", path)] = val
        # other element writes: the container keeps its length

    def kill(self, st, path):
        n = len(path)
        for k in [k for k in st.env if k[0] == "h" and k[1][:n] == path]:
            del st.env[k]

    def rebind(self, st, base, val):
        """every slot holding exactly this symbolic text/list now holds val"""
        if base[0] in ("s", "q", "by"):
            r = base[1]
        else:
            return
        if r[0] in ("sym", "R", "phi"):
            p = r[1] if r[0] == "sym" else None
            if p is not None:
                st.env[("h", p)] = val
            for k, v in list(st.env.items()):
                if v == base:
                    st.env[k] = val

    def operand(self, st, fr, o, bb=None, line=0):
        if "c" in o or "m" in o:
            return self.load(st, fr, o.get("c") or o.get("m"))
        k = o.get("k")
        ty = self.bodies[fr].ty(o["t"]) if isinstance(o.get("t"), int) and o["t"] >= 0 else {"s": "?"}
        return self.const(k, ty)

    def const(self, k, ty):
        if not isinstance(k, dict):
            return ("sym", ("const?",))
        if "i" in k:
            if ty["s"] in INTS and int(k["i"]) < 0:
                return ("i", k["i"])
            return n_(K(int(k["i"])))
        if "b" in k and isinstance(k["b"], (bool, int)):
            return TRUE if k["b"] else FALSE
        if "str" in k:
            return ("s", ("K", k["str"]), ZERO, None)
        if "ch" in k:
            return ("ch", None, k["ch"])
        if isinstance(k.get("bytes"), list):
            return ("q", ("KB", bytes(k["bytes"])), ZERO, K(len(k["bytes"])))
        if "fn" in k:
            return ("fn", k.get("res") or k["fn"])
        if "ref" in k:
            return self.const(k["ref"], {"s": ty["s"].lstrip("&")})
        if "tup" in k:
            return ("tup", tuple(self.const(x, {"s": "?"}) for x in k["tup"]))
        if "arr" in k and isinstance(k["arr"], list):
            return ("arr", tuple(self.const(x, {"s": "?"}) for x in k["arr"]))
        if ty.get("k") == "closure":
            return ("clo", ty.get("d"), ())
        return ("sym", ("const", repr(k)[:80]))

    # ---------------------------------------------------------------- function execution
    def setup(self, fr, body):
        self.bodies[fr] = body
        if ("lp", fr) in self.loops:
            return
        self.loops[("lp", fr)] = True
        key = ("loops",)
        if key not in body.cache:
            res = {}
            for b in body.reach():
                for s in body.succ(b):
                    if s in body.reach() and body.dominates(s, b):
                        loop = res.setdefault(s, {s})
                        stk = [b]
                        while stk:
                            x = stk.pop()
                            if x in loop:
                                continue
                            loop.add(x)
                            stk += body.pred(x)
            # RPO
            order, seen = [], {0}
            st = [(0, iter(body.succ(0)))]
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(body.succ(s))))
                        break
                else:
                    order.append(x)
                    st.pop()
            order.reverse()
            body.cache[key] = (res, {b: i for i, b in enumerate(order)})
        res, rpo = body.cache[key]
        for h, l in res.items():
            self.loops[(fr, h)] = l

    def run(self, fr, body, args, st0, depth=0):
        self.setup(fr, body)
        loops, rpo = body.cache[("loops",)]
        st0 = st0.copy()
        for i, a in enumerate(args):
            st0.env[(fr, i + 1)] = self.typed(a, body.lty(i + 1), st0)
        edges = {}      # block -> {(pred, k): state}
        edges[0] = {("entry", 0): st0}
        work = {0}
        visits = {}
        rets = {}
        while work:
            bb = min(work, key=lambda b: rpo.get(b, 1 << 30))
            work.discard(bb)
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Overrun(body.id)
            visits[bb] = visits.get(bb, 0) + 1
            ins = edges[bb]
            ks = sorted(ins, key=repr)
            back = [k[0] != "entry" and body.dominates(bb, k[0]) for k in ks]
            if bb == 0 and len(ks) == 1:
                st = st0.copy()
            else:
                st = self.join(fr, bb, [ins[k] for k in ks], back)
            if visits[bb] > 8:
                # force stability: no facts, merged values are merge values
                st.facts = frozenset(f for f in st.facts if all(f in ins[k].facts for k in ks))
            if visits[bb] > 14:
                continue
            outs = self.block(fr, body, bb, st, depth)
            for k, (succ, s) in enumerate(outs):
                if succ == "ret":
                    rets[bb] = s
                    continue
                d = edges.setdefault(succ, {})
                old = d.get((bb, k))
                if old is not None and old.env == s.env and old.facts == s.facts:
                    continue
                d[(bb, k)] = s
                work.add(succ)
            live = {k for k in range(len(outs))}
            for succ in set(body.succ(bb)):
                d = edges.get(succ)
                if d:
                    for key in [x for x in d if x[0] == bb and x[1] not in live]:
                        del d[key]
        if not rets:
            return None, None
        items = sorted(rets.items())
        vals = [(s.env.get((fr, 0), ("tup", ())), s.facts) for _, s in items]
        stt = self.join(fr, "ret", [s for _, s in items], [False] * len(items))
        rv = self.joinval(vals, (fr, "ret", ("rv",)))
        for k in [k for k in stt.env if k[0] != "h" and k[0] == fr]:
            del stt.env[k]
        return rv, stt

    def block(self, fr, body, bb, st, depth):
        blk = body.blocks[bb]
        for j, s in enumerate(blk["s"]):
            line, place, rv = s
            if rv[0] == "dead":
                st.env.pop((fr, place[0]), None)
                continue
            v = self.rvalue(st, fr, body, bb, j, place, rv)
            if v is not None:
                self.store(st, fr, place, v)
        t = blk["t"]
        k = t[1]
        if k == "goto":
            return [(t[2], st)]
        if k == "drop":
            return [(t[3], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "assert":
            c = self.operand(st, fr, t[2])
            if t[4] == "bounds":
                ln, ix = self.operand(st, fr, t[5][0]), self.operand(st, fr, t[5][1])
                self.oblige_idx(st, fr, bb, t[0], ix, ln, "list")
            if t[4] in ("div0", "rem0"):
                self.obl[(fr, bb)] = ("div", t[0], c, bool(t[3]), None, st.facts, "division")
            if t[4] == "overflow:Sub" and self.optype(body, t[5][0]) == "usize":
                self.obl[(fr, bb)] = ("sub", t[0], c, bool(t[3]), None, st.facts, "subtraction")
            if c[0] == "c":
                f = self.assume(st, c[1], bool(t[3]))
                if f is None:
                    if t[4] != "bounds":
                        return []
                else:
                    st.facts = f
            return [(t[6], st)]
        if k == "switch":
            return self.switch(st, fr, body, bb, t)
        if k == "call":
            return self.call(st, fr, body, bb, t, depth)
        return []

    def switch(self, st, fr, body, bb, t):
        v = self.operand(st, fr, t[2])
        out = []
        if v[0] == "c":
            for val, tg in t[3]:
                f = self.assume(st, v[1], bool(val))
                if f is not None:
                    out.append((tg, State(st.env, f)))
            if all(not val for val, _ in t[3]):
                f = self.assume(st, v[1], True)
                if f is not None:
                    out.append((t[4], State(st.env, f)))
            else:
                out.append((t[4], State(st.env, st.facts)))
            return out
        if v[0] == "disc":
            en, place, names = v[1], v[2], v[3]
            cur = {x[0]: x for x in en[1]}
            seen = set()
            for val, tg in t[3]:
                nm = names.get(val)
                seen.add(nm)
                if nm is not None and nm not in cur:
                    continue
                s = State(st.env, st.facts | (cur[nm][2] if nm in cur else frozenset()))
                if nm in cur and place is not None:
                    self.refine(s, place, en, {nm})
                out.append((tg, s))
            rest = [n for n in cur if n not in seen]
            if rest:
                fs = self.joinfacts([cur[n][2] for n in rest])
                s = State(st.env, st.facts | fs)
                if place is not None:
                    self.refine(s, place, en, set(rest))
                out.append((t[4], s))
            return out
        if v[0] == "n":
            vals = []
            for val, tg in t[3]:
                f = self.assume(st, ("cmp", "eq", v[1], K(int(val))), True)
                vals.append(int(val))
                if f is not None:
                    out.append((tg, State(st.env, f)))
            f = st.facts
            for x in vals:
                if f is not None:
                    f = self.assume(State({}, f), ("cmp", "eq", v[1], K(x)), False)
            if f is not None:
                out.append((t[4], State(st.env, f)))
            return out
        if v[0] in ("byte", "ch"):
            for val, tg in t[3]:
                f = st.facts | frozenset(self.charfacts(v, chr(int(val))))
                out.append((tg, State(st.env, f)))
            out.append((t[4], State(st.env, st.facts)))
            return out
        for val, tg in t[3]:
            out.append((tg, State(st.env, st.facts)))
        out.append((t[4], State(st.env, st.facts)))
        return out

    def refine(self, s, place, en, names):
        key = place
        if s.env.get(key) == en:
            s.env[key] = ("en", tuple(x for x in en[1] if x[0] in names))

    def charfacts(self, v, ch):
        """facts of 'this byte / char equals ch'"""
        if v[0] == "byte":
            if ord(ch) < 128:
                return [("m", v[1], v[2], ("chars", frozenset([ch])))]
            return []
        out = [("cheq", v[1], ch)]
        if ord(ch) < 128:
            out.append(("chasc", v[1]))
        if isinstance(v[1], tuple) and v[1] and v[1][0] == "loc":
            out.append(("m", v[1][1], v[1][2], ("chars", frozenset([ch]))))
        return out

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, body, bb, j, place, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            p = rv[2]
            loc, projs = p
            v = st.env.get((fr, loc))
            # reborrow of a pointer: resolve the deref prefix
            if projs and projs[0][0] == "*":
                if v is not None and v[0] == "p":
                    return ("p", v[1], v[2], tuple(map(tup, list(v[3]) + list(projs[1:]))))
                base = self.load(st, fr, [loc, projs[:1]])
                if len(projs) == 1:
                    return base
                if base[0] == "p":
                    return ("p", base[1], base[2], tuple(map(tup, list(base[3]) + list(projs[1:]))))
                x = self.load(st, fr, p)
                return x
            if rv[1] == 0 and v is not None and (projs or v[0] in ("s", "q", "by", "n", "ch", "byte")) and v[0] != "sym":
                x = self.load(st, fr, p)
                if x[0] in ("s", "q", "by", "n", "ch", "byte", "arr", "clo"):
                    return x
            return ("p", fr, loc, tuple(map(tup, projs)))
        if k == "bin":
            return self.binop(st, fr, body, bb, j, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), place)
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not" and v[0] == "c":
                return ("c", negate(v[1]))
            if rv[1] == "PtrMetadata":
                v = self.deref(st, v)
                if v[0] in ("s", "by", "q"):
                    return n_(self.length(v))
                if v[0] == "arr":
                    return n_(K(len(v[1])))
            return self.fresh(fr, bb, ("u", j), body, place)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            t = body.ty(rv[3])["s"]
            src = self.optype(body, rv[2])
            if v[0] == "n" and t in UINTS and src in UINTS:
                w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
                if w[t] >= w[src] or not v[1][1] or t == "u32":      # counts and positions stay below 2^31
                    return v
                return self.fresh(fr, bb, ("cast", j), body, place)
            if v[0] == "n" and t in ("i32", "i64", "isize", "i128") and src in UINTS:
                return v
            if v[0] in ("byte", "ch") and (t in UINTS or t == "char"):
                return v if t in ("char", "u8", "u32") else self.fresh(fr, bb, ("cast", j), body, place)
            if rv[1] in ("PointerCoercion", "PtrToPtr", "Transmute") or t.startswith("&"):
                d = self.deref(st, v) if v[0] == "p" else v
                if d[0] == "arr":
                    return d
                return v
            return self.fresh(fr, bb, ("cast", j), body, place)
        if k == "discr":
            v = self.load(st, fr, rv[1])
            v = self.deref(st, v) if v[0] == "p" else v
            if v[0] == "en":
                loc, projs = rv[1]
                key = None
                if not projs:
                    key = (fr, loc)
                elif len(projs) == 1 and projs[0][0] == "*":
                    c = st.env.get((fr, loc))
                    if c and c[0] == "p" and not c[3]:
                        key = (c[1], c[2])
                    elif c and c[0] == "en":
                        key = (fr, loc)
                names = self.variants(body, rv[1], v)
                return ("disc", v, key, names)
            return self.fresh(fr, bb, ("d", j), body, place)
        if k == "agg":
            kind, ops = rv[1], rv[2]
            vals = tuple(self.operand(st, fr, o) for o in ops)
            if kind[0] == "tuple":
                return ("tup", vals)
            if kind[0] == "array":
                return ("arr", vals)
            if kind[0] == "closure":
                return ("clo", self.P.resolve_id(body.crate, kind[1]), vals)
            if kind[0] == "adt":
                nm = kind[1].split("::")[-1]
                if nm in ("Option", "Result", "ControlFlow") and kind[1].startswith("core::"):
                    return ("en", ((kind[3], vals, frozenset()),))
                ad = self.P.adts.get(body.crate, {}).get(kind[1]) or self.P.adts["ppt_rs"].get(kind[1])
                if ad and ad.get("kind", ad.get("k")) == "enum" or (ad and len(ad.get("variants", ad.get("v", []))) > 1):
                    return ("en", ((kind[3], vals, frozenset()),))
                return ("adt", kind[1], vals)
            return self.fresh(fr, bb, ("g", j), body, place)
        if k == "repeat":
            n = rv[2]
            return ("q", ("R", fr, bb, ("rep", j)), ZERO, K(n) if n >= 0 else None)
        if k == "setdiscr":
            return None
        return self.fresh(fr, bb, ("o", j), body, place)

    def variants(self, body, place, v):
        class D(dict):
            pass
        names = {x[0] for x in v[1]}
        if names <= {"None", "Some"}:
            return HDict({0: "None", 1: "Some"})
        if names <= {"Ok", "Err"}:
            return HDict({0: "Ok", 1: "Err"})
        if names <= {"Continue", "Break"}:
            return HDict({0: "Continue", 1: "Break"})
        t = body.lty(place[0])
        for p in place[1]:
            if p[0] == "f":
                t = body.ty(p[4])
            elif p[0] == "*" and t.get("a"):
                t = body.ty(t["a"][0])
        while t.get("k") == "ref":
            t = body.ty(t["a"][0])
        ad = self.P.adts.get(body.crate, {}).get(t.get("d")) or self.P.adts["ppt_rs"].get(t.get("d"))
        vs = (ad or {}).get("variants") or (ad or {}).get("v") or []
        out = {}
        for i, x in enumerate(vs):
            nm = x.get("name", x.get("n")) if isinstance(x, dict) else x[0] if isinstance(x, list) else x
            dv = x.get("d", x.get("discr", i)) if isinstance(x, dict) else i
            try:
                out[int(dv)] = nm
            except Exception:
                out[i] = nm
        return HDict(out)

    def optype(self, body, o):
        if isinstance(o.get("t"), int) and o["t"] >= 0:
            return body.ty(o["t"])["s"]
        p = o.get("c") or o.get("m")
        t = body.lty(p[0])
        for q in p[1]:
            if q[0] == "f":
                t = body.ty(q[4])
            elif q[0] == "*" and t.get("a"):
                t = body.ty(t["a"][0])
        return t["s"]

    def placety(self, body, place):
        t = body.lty(place[0])
        for q in place[1]:
            if q[0] == "f":
                t = body.ty(q[4])
            elif q[0] == "*" and t.get("a"):
                t = body.ty(t["a"][0])
        return t

    def fresh(self, fr, bb, tag, body, place):
        return self.mksym(("at", fr, bb, tag), self.placety(body, place))

    def binop(self, st, fr, body, bb, j, op, x, y, place):
        ovf = op.endswith("WithOverflow")
        op0 = op.replace("WithOverflow", "").replace("Unchecked", "")
        if x[0] == "n" and y[0] == "n":
            a, b = self.norm(x[1]), self.norm(y[1])
            if op0 in ("Add", "Sub", "Mul"):
                c = TRUE
                if op0 == "Add":
                    r = add(a, b)
                elif op0 == "Sub":
                    r = sub(a, b)
                    c = ("c", ("cmp", "lt", a, b))
                elif not b[1]:
                    r = scale(a, b[0])
                elif not a[1]:
                    r = scale(b, a[0])
                else:
                    r = None
                if r is not None:
                    if ovf:
                        return ("tup", (n_(r), c if op0 == "Sub" else ("c", ("sym", ("ov", fr, bb, j)))))
                    return n_(r)
            if op0 == "Shl" and not b[1] and b[0] < 64:
                r = n_(scale(a, 1 << b[0]))
                return ("tup", (r, ("c", ("sym", ("ov", fr, bb, j))))) if ovf else r
            if op0 in ("BitOr", "BitXor") and not ovf:
                at = ("a", fr, bb, ("bin", j))
                self.meta[at] = ("bnd", (), (add(a, b),))
                return n_(A(at))
            if op0 in ("Div", "Shr", "Rem", "BitAnd") and not ovf:
                at = ("a", fr, bb, ("bin", j))
                if not a[1] and not b[1] and b[0] and op0 in ("Div", "Rem"):
                    return n_(K(a[0] // b[0] if op0 == "Div" else a[0] % b[0]))
                ub = [a] if op0 in ("Div", "Shr") else [a, sub(b, K(1))] if op0 == "Rem" else [a, b]
                if op0 == "Div" and not b[1] and b[0] > 1 and all(c % b[0] == 0 for _, c in a[1]) and a[0] % b[0] == 0:
                    return n_((a[0] // b[0], frozenset((x, c // b[0]) for x, c in a[1])))
                self.meta[at] = ("bnd", (), tuple(ub))
                return n_(A(at))
            if op0 in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return ("c", ("cmp", op0.lower(), a, b))
        if op0 == "BitAnd" and (x[0] == "n") != (y[0] == "n") and x[0] != "c" and y[0] != "c":
            b = (x if x[0] == "n" else y)[1]
            if not b[1]:
                at = ("a", fr, bb, ("bin", j))
                self.meta[at] = ("bnd", (), (b,))
                return n_(A(at))
        if op0 in ("Eq", "Ne") and x[0] in ("byte", "ch") or op0 in ("Eq", "Ne") and y[0] in ("byte", "ch"):
            v, c = (x, y) if x[0] in ("byte", "ch") and not (x[0] == "ch" and x[2] is not None) else (y, x)
            ch = None
            if c[0] == "n" and not c[1][1]:
                ch = chr(c[1][0])
            elif c[0] == "ch" and c[2] is not None:
                ch = c[2]
            if ch is not None and v[0] in ("byte", "ch"):
                cc = ("fact", tuple(self.charfacts(v, ch)))
                return ("c", cc if op0 == "Eq" else ("not", cc))
        if op0 in ("Lt", "Le") and x[0] in ("byte", "ch") and y[0] == "n" and not y[1][1] and y[1][0] <= 128:
            return ("c", ("fact", tuple(self.ascfacts(x))))
        if op0 in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if x[0] == "c" and y[0] == "c" and op0 in ("Eq", "Ne"):
                for p, q in ((x, y), (y, x)):
                    if q[1] in (("true",), ("false",)):
                        pos = (q[1] == ("true",)) == (op0 == "Eq")
                        return p if pos else ("c", negate(p[1]))
            return ("c", ("sym", ("cmp", fr, bb, j)))
        if op0 == "BitAnd" and x[0] == "c" and y[0] == "c":
            return ("c", ("and", x[1], y[1]))
        v = self.fresh(fr, bb, ("b", j), body, place)
        if ovf and v[0] == "sym":
            ty = self.optype(body, body.blocks[bb]["s"][j][2][2]) if False else None
            t = self.placety(body, place)["s"]
            inner = t.strip("()").split(",")[0].strip()
            return ("tup", (self.mksym(("at", fr, bb, ("b", j)), inner), ("c", ("sym", ("ov", fr, bb, j)))))
        return v

    def ascfacts(self, v):
        if v[0] == "byte":
            return [("b", v[1], v[2]), ("b", v[1], add(v[2], K(1)))]
        out = [("chasc", v[1])]
        if isinstance(v[1], tuple) and v[1] and v[1][0] == "loc":
            out += [("m", v[1][1], v[1][2], ("asc",))]
        return out

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, fr, bb, line, view, lo, hi, what):
        """text cut [lo, hi) relative to the view (None = open)"""
        self.obl[(fr, bb)] = ("cut", line, view, lo, hi, st.facts, what)

    def oblige_idx(self, st, fr, bb, line, ix, ln, what):
        self.obl[(fr, bb)] = ("idx", line, ix, ln, None, st.facts, what)

    def decide(self, o):
        """None when proven, else a short reason"""
        kind, line, view, lo, hi, facts, what = o
        if kind == "div":
            c = view
            if c[0] != "c":
                return "opaque"
            k = c[1]
            if k[0] == "not":
                k, lo = k[1], not lo
            if k[0] in ("true", "false"):
                return None if (k[0] == "true") == lo else "the divisor is 0"
            if k[0] == "cmp" and k[1] == "eq" and not lo:
                for d in (sub(k[2], k[3]), sub(k[3], k[2])):
                    if self.prove_ge(add(d, K(-1)), facts, 6):
                        return None
                return "the divisor may be 0"
            return "opaque"
        if kind == "sub":
            c = view
            if c[0] != "c":
                return "opaque"
            k = c[1]
            if k[0] in ("true", "false"):
                return None if (k[0] == "true") == lo else "the difference is negative"
            if k[0] == "cmp" and k[1] == "lt" and not lo:
                return None if self.prove_ge(sub(k[2], k[3]), facts, 6) else "the difference may be negative"
            return "opaque"
        if kind == "unw":
            names = {x[0] for x in view[1]}
            return None if not names & {"None", "Err"} else "the value may be absent"
        if kind == "trunc":
            return "opaque"
        if kind == "lim":
            ix, lim = view, lo
            return None if self.prove_ge(sub(lim, ix[1]), facts, 6) else "position may be outside the list"
        if kind == "idx":
            ix, ln = view, lo
            if ix[0] != "n" or ln[0] != "n":
                return "opaque"
            return None if self.prove_ge(add(sub(ln[1], ix[1]), K(-1)), facts, 6) else "position may be outside the list"
        if view[0] == "q":
            base, end = view[2], self.end(view)
            s = add(base, lo) if lo is not None else base
            e = add(base, hi) if hi is not None else end
            if not self.prove_ge(sub(e, s), facts, 6):
                return "the start may lie behind the end"
            if hi is not None and not self.prove_ge(sub(end, e), facts, 6):
                return "the end may lie outside the list"
            return None
        root, base, end = view[1], view[2], self.end(view)
        bs = None
        for nm, x in (("start", lo), ("end", hi)):
            if x is None:
                continue
            E = add(base, x)
            if not self.prove_b(root, E, facts):
                return "the %s is not known to be a character boundary of the text" % nm
            if view[3] is not None and not self.prove_ge(sub(end, E), facts, 6):
                return "the %s may lie outside the text" % nm
        if lo is not None and hi is not None and not self.prove_ge(sub(hi, lo), facts, 6):
            return "the start may lie behind the end"
        return None

    def cut(self, st, fr, bb, line, view, lo, hi, what):
        self.oblige(st, fr, bb, line, view, lo, hi, what)
        root, base = view[1], view[2]
        fs = set()
        s = add(base, lo) if lo is not None else base
        e = add(base, hi) if hi is not None else view[3]
        if view[0] != "q":
            for x in (lo, hi):
                if x is not None:
                    fs.add(("b", root, add(base, x)))
        if lo is not None and hi is not None:
            fs.add(("ge", sub(hi, lo)))
        if hi is not None:
            fs.add(("ge", sub(self.end(view), add(base, hi))))
        elif lo is not None:
            fs.add(("ge", sub(self.end(view), add(base, lo))))
        st.facts = st.facts | frozenset(f for f in fs if f[0] != "ge" or f[1][1])
        return (view[0], root, s, e)

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, body, bb, t, depth):
        line, dest, target = t[0], t[4], t[5]
        name = mir.callee(t)
        info = mir.fninfo(t) or {}
        args = [self.operand(st, fr, a) for a in t[3]]
        self.curtypes = [self.optype(body, a) for a in t[3]]
        r = self.libcall(st, fr, body, bb, t, name or "", info, args, depth)
        if r is not None and r != "diverge":
            for a in args:
                d = self.deref(st, a) if a[0] == "p" else a
                if d[0] == "clo" and d[1] not in self.ran:
                    self.apply(st.copy(), fr, bb, d, None, depth, tag="ext")
        if r == "diverge":
            return []
        if r is None:
            cid = self.P.resolve_id(body.crate, name) if name else None
            cb = self.P.bodies.get(cid) if cid else None
            if cb is None and args and args[0][0] in ("clo",) and info.get("fn", "").split("::")[-1] in ("call", "call_mut", "call_once"):
                cb = None
            if cb is not None and depth < 4 and all(f[0] != cid for f in fr) and self.inline(cb, depth):
                rv, s2 = self.run(fr + ((body.id, bb),), cb, args, st, depth + 1)
                if s2 is None:
                    return []
                st = s2
                r = rv
            else:
                self.effects(st, fr, bb, args, t)
                for a in args:
                    d = self.deref(st, a) if a[0] == "p" else a
                    if d[0] == "clo":
                        self.apply(st.copy(), fr, bb, d, None, depth, tag="ext")
                if target >= 0:
                    r = self.mksym(("at", fr, bb, "ret"), self.placety(body, dest))
        if target < 0:
            return []
        if r is not None:
            self.store(st, fr, dest, r)
        return [(target, st)]

    def effects(self, st, fr, bb, args, t):
        """mutable references handed to unknown code: their targets are unknown afterwards"""
        for i, (a, ty) in enumerate(zip(args, self.curtypes)):
            if not ty.startswith("&") or "mut " not in ty.split("<")[0][:40] and not ty.startswith("&mut"):
                # closures may capture mutable references
                if a[0] == "clo":
                    for u in a[2]:
                        if u[0] == "p":
                            self.clobber(st, fr, bb, u, i)
                continue
            self.clobber(st, fr, bb, a, i, ty)

    def clobber(self, st, fr, bb, a, i, ty=None):
        if a[0] == "p":
            cur = self.loadp(st, a)
            cur = self.deref(st, cur) if cur[0] == "p" else cur
            self.store(st, a[1], [a[2], [list(x) for x in a[3]]], self.freshlike(cur, fr, bb, ("mut", i)))
        elif a[0] == "sym":
            self.kill(st, a[1])
            st.env[("h", a[1])] = ("sym", ("at", fr, bb, ("mut", i)))
        elif a[0] in ("s", "q", "by"):
            self.rebind(st, a, self.freshlike(a, fr, bb, ("mut", i)))

    def freshlike(self, v, fr, bb, tag):
        if v[0] in ("s", "q", "by"):
            return (v[0], ("R", fr, bb, tag), ZERO, None)
        if v[0] == "arr":
            return ("q", ("R", fr, bb, tag), ZERO, K(len(v[1])))
        if v[0] == "n":
            return n_(A(("sym", ("at", fr, bb, tag))))
        if v[0] == "c":
            return ("c", ("sym", ("at", fr, bb, tag)))
        return ("sym", ("at", fr, bb, tag))

    def apply(self, st, fr, bb, f, args, depth, tag=0):
        """call of a closure / function value: (result, state) or (None, None)"""
        f = self.deref(st, f) if f[0] == "p" else f
        if f[0] == "clo":
            cb = self.P.bodies.get(f[1])
            if cb is not None and depth < 6 and all(x[0] != f[1] for x in fr):
                fr2 = fr + ((self.bodies[fr].id, bb, tag),)
                self.ran.add(f[1])
                if args is None:
                    args = [self.mksym(("at", fr2, -1, ("arg", i)), cb.lty(i + 2)) for i in range(cb.argc - 1)]
                elif len(args) != cb.argc - 1:
                    args = [("sym", ("at", fr2, -1, ("arg", i))) for i in range(cb.argc - 1)]
                return self.run(fr2, cb, [f] + list(args), st, depth + 1)
            return ("sym", ("at", fr, bb, ("clo", tag))), st
        if f[0] == "fn" and args is not None:
            cid = self.P.resolve_id(self.bodies[fr].crate, f[1])
            cb = self.P.bodies.get(cid)
            if cb is not None and depth < 4 and self.inline(cb, depth) and len(args) == cb.argc:
                return self.run(fr + ((self.bodies[fr].id, bb, tag),), cb, list(args), st, depth + 1)
            last = f[1].split("::")[-1]
            r = self.purecall(st, fr, bb, last, f[1], args)
            if r is not None:
                return r, st
        return ("sym", ("at", fr, bb, ("ap", tag))), st

    def purecall(self, st, fr, bb, last, name, args):
        a = [self.deref(st, x) if x[0] == "p" else x for x in args]
        if a and a[0][0] in ("ch", "byte") and last.startswith("is_"):
            return self.charpred(last, a[0])
        if a and a[0][0] == "s":
            v = a[0]
            if last in ("len",):
                return n_(self.length(v))
            if last in ("to_string", "to_owned", "from", "into", "clone", "as_str", "deref", "as_ref", "borrow", "to_ascii_lowercase",
                        "to_ascii_uppercase"):
                return self.alias(v, last)
            if last.startswith("trim"):
                return self.trim(st, fr, bb, v, last, None)
            if last == "is_empty":
                return ("c", ("cmp", "eq", self.length(v), ZERO))
            if last == "is_ascii":
                return ("c", ("fact", (("asc", v[1], v[2], v[3]),)))
        if last == "len_utf8" and a and a[0][0] == "ch":
            return self.len_utf8(fr, bb, a[0], st)
        if last == "Some":
            return some(args[0])
        return None

    def charpred(self, last, v):
        if last in ("is_ascii", "is_ascii_digit", "is_ascii_hexdigit", "is_ascii_alphanumeric", "is_ascii_alphabetic",
                    "is_ascii_punctuation", "is_ascii_whitespace", "is_ascii_uppercase", "is_ascii_lowercase",
                    "is_ascii_graphic", "is_ascii_control", "is_digit"):
            return ("c", ("fact", tuple(self.ascfacts(v))))
        return ("c", ("sym", ("pred", last, v)))

    def alias(self, v, how):
        if how.startswith("to_ascii") and v[1][0] == "K":
            return ("s", ("K", v[1][1].lower() if "lower" in how else v[1][1].upper()), v[2], v[3])
        return ("s",) + v[1:]

    def len_utf8(self, fr, bb, ch, st):
        if ch[2] is not None:
            return n_(K(len(ch[2].encode())))
        if ("chasc", ch[1]) in st.facts:
            return n_(K(1))
        at = ("a", fr, bb, "clen", ch[1])
        if isinstance(ch[1], tuple) and ch[1] and ch[1][0] == "loc":
            at = ("clen",) + ch[1][1:]
            self.meta[at] = ("pos", ch[1][1], ch[1][2], None, self.end(("s", ch[1][1], ZERO, None)))
            return n_(A(at))
        return n_(A(at))

    # needle of a pattern argument
    def needle(self, st, fr, bb, p, depth, view):
        p = self.deref(st, p) if p[0] == "p" else p
        if p[0] == "s":
            if p[1][0] == "K" and p[2] == ZERO and p[3] is None:
                return ("str", p[1][1])
            return ("view", p[1], p[2], self.end(p))
        if p[0] == "ch":
            if p[2] is not None:
                return ("chars", frozenset([p[2]]))
            for f in st.facts:
                if f[0] == "cheq" and f[1] == p[1]:
                    return ("chars", frozenset([f[2]]))
            if ("chasc", p[1]) in st.facts:
                return ("asc",)
            return ("any",)
        if p[0] == "arr":
            cs = [x[2] if x[0] == "ch" else None for x in p[1]]
            return ("chars", frozenset(cs)) if cs and all(cs) else ("any",)
        if p[0] in ("clo", "fn"):
            ch = ("ch", ("pat", fr, bb), None)
            r, s2 = self.apply(st.copy(), fr, bb, p, [ch], depth, tag="pat")
            if r is not None and r[0] == "c":
                fs = self.assume(State({}, s2.facts - frozenset(f for f in s2.facts if mentions(f, lambda x: x == ch[1]))), r[1], True)
                if fs is not None:
                    eq = [f[2] for f in fs if f[0] == "cheq" and f[1] == ch[1]]
                    if len(eq) == 1:
                        return ("chars", frozenset(eq))
                    if ("chasc", ch[1]) in fs:
                        return ("asc",)
            return ("any",)
        return ("any?",)

    def pos(self, fr, bb, view, nd, tag="pos"):
        at = ("a", fr, bb, tag)
        self.meta[at] = ("pos", view[1], view[2], nd, self.end(view))
        return at

    def has(self, st, v, nd):
        """is the needle known to occur in the view"""
        return nd[0] in ("str", "chars") and any(
            f[0] == "has" and f[1:] == (v[1], v[2], v[3], nd) or f == ("m", v[1], v[2], nd) for f in st.facts)

    def trim(self, st, fr, bb, v, last, nd):
        if v[1][0] == "K" and v[2] == ZERO and v[3] is None and last == "trim":
            return ("s", ("K", v[1][1].strip()), ZERO, None)
        lo, hi = v[2], v[3]
        if last in ("trim", "trim_start", "trim_start_matches", "trim_left", "trim_matches", "trim_left_matches"):
            at = self.pos(fr, bb, v, None, "tl")
            lo = add(v[2], A(at))
        if last in ("trim", "trim_end", "trim_end_matches", "trim_right", "trim_matches", "trim_right_matches"):
            base = ("s", v[1], lo, v[3])
            at = self.pos(fr, bb, base, None, "tr")
            hi = add(lo, A(at))
        return ("s", v[1], lo, hi)

    def rangeof(self, v):
        """(lo, hi) of a range value; None for open ends; False when not understood"""
        if v[0] == "adt":
            nm = v[1].split("::")[-1]
            xs = v[2]
            if nm == "RangeFull":
                return (None, None)
            if all(x[0] == "n" for x in xs):
                if nm == "Range" and len(xs) == 2:
                    return (xs[0][1], xs[1][1])
                if nm == "RangeFrom":
                    return (xs[0][1], None)
                if nm == "RangeTo":
                    return (None, xs[0][1])
                if nm == "RangeToInclusive":
                    return (None, add(xs[0][1], K(1)))
        if v[0] == "rangei":
            return (v[1], add(v[2], K(1)))
        return False

    def libcall(self, st, fr, body, bb, t, name, info, args, depth):
        last = name.split("::")[-1] if name else ""
        fn = info.get("fn", "")
        line, dest = t[0], t[4]
        fnlast = fn.split("::")[-1]
        if not name and not fn:
            return None
        if name.startswith("crate::") or (self.P.bodies.get(self.P.resolve_id(body.crate, name)) is not None):
            return None
        if not name:
            last = fnlast
        a = [self.deref(st, x) if x[0] == "p" else x for x in args]
        R = ("R", fr, bb, "r")
        # ---- closures called directly
        if fnlast in ("call", "call_mut", "call_once") and "ops::function" in fn and a and a[0][0] in ("clo", "fn"):
            xs = list(a[1][1]) if len(a) > 1 and a[1][0] == "tup" else None
            r, s2 = self.apply(st, fr, bb, a[0], xs, depth, tag="call")
            if s2 is None:
                return "diverge"
            st.env, st.facts = s2.env, s2.facts
            return r
        if last in ("panic", "panic_fmt", "unwrap_failed", "expect_failed", "panic_display", "unreachable_display", "begin_panic"):
            return "diverge"
        if not a:
            if last == "new" and "String" in name:
                return ("s", ("K", ""), ZERO, None)
            if last == "new" and "Vec" in name:
                return ("q", R, ZERO, ZERO)
            return None
        v = a[0]
        # ---- conversions that keep the text
        if v[0] == "s" and last in ("deref", "deref_mut", "as_str", "as_ref", "borrow", "to_string", "to_owned", "clone", "into", "from",
                                    "into_owned", "into_string", "as_mut_str", "into_boxed_str", "must_use", "to_ascii_lowercase",
                                    "to_ascii_uppercase", "identity", "from_str", "as_mut", "borrow_mut", "into_boxed_str", "leak", "cloned"):
            if last == "deref_mut":
                return args[0]
            return self.alias(v, last)
        if v[0] == "s" and last in ("as_bytes", "into_bytes", "bytes"):
            r = ("by",) + v[1:]
            return ("it", ("seqit", r)) if last == "bytes" else r
        if v[0] == "by" and last in ("deref", "as_slice", "as_ref", "to_vec", "clone", "borrow", "to_owned", "into"):
            return v
        if v[0] == "by" and last in ("from_utf8_unchecked",):
            return ("s",) + v[1:]
        if v[0] == "by" and last == "from_utf8":
            return ("en", (("Err", (("sym", ("at", fr, bb, "e")),), frozenset()), ("Ok", (("s",) + v[1:],), frozenset())))
        if v[0] == "by" and last == "from_utf8_lossy":
            return ("s", R, ZERO, None)
        if v[0] == "q" and last in ("deref", "deref_mut", "as_slice", "as_ref", "borrow", "as_mut_slice", "as_mut"):
            return args[0] if last in ("deref_mut", "as_mut_slice", "as_mut") and args[0][0] == "p" else v
        if v[0] == "q" and last in ("to_vec", "clone", "to_owned", "into_boxed_slice", "into_vec", "into"):
            return v
        if v[0] == "arr" and last in ("as_slice", "as_ref", "to_vec", "into_vec", "deref", "borrow", "clone", "into", "from"):
            if last in ("to_vec", "into_vec", "into", "from"):
                return ("q", R, ZERO, K(len(v[1])))
            return v
        if v[0] == "n" and last in ("clone", "into", "from", "deref", "to_owned", "must_use", "as_ref", "borrow"):
            return v if self.sameint(body, t) else None
        if v[0] in ("ch", "byte") and last in ("clone", "into", "from", "deref", "as_ref", "borrow"):
            return v
        if v[0] in ("en", "tup", "adt") and last in ("clone", "must_use", "identity", "as_ref", "as_mut", "copied", "cloned", "as_deref",
                                                       "as_deref_mut", "to_owned", "borrow") and (v[0] != "adt" or last in ("clone", "must_use")):
            if last == "as_mut" or last == "as_deref_mut":
                return None
            return self.derefen(st, v)
        # ---- cuts
        if v[0] in ("s", "by", "q", "arr") and fnlast in ("index", "index_mut") and "ops::index" in fn:
            if v[0] == "arr":
                v = ("q", ("R", fr, bb, "arr"), ZERO, K(len(v[1])))
            if len(a) > 1 and a[1][0] == "n" and v[0] in ("q", "by"):
                self.oblige_idx(st, fr, bb, line, a[1], n_(self.length(v)), "list")
                st.facts = st.facts | frozenset([("ge", add(sub(self.length(v), a[1][1]), K(-1)))])
                if v[0] == "by":
                    return ("byte", v[1], add(v[2], a[1][1]))
                return self.mksym(("el", v[1], a[1][1]), self.placety(body, dest))
            rg = self.rangeof(a[1]) if len(a) > 1 else False
            if rg is False:
                self.oblige(st, fr, bb, line, v, ("?",), None, "slice") if v[0] == "s" else None
                return (v[0], ("R", fr, bb, "r"), ZERO, None)
            if rg == (None, None):
                return v
            if v[0] == "by":
                v = ("q",) + v[1:]
                r = self.cut(st, fr, bb, line, v, rg[0], rg[1], "list range")
                return ("by",) + r[1:]
            return self.cut(st, fr, bb, line, v, rg[0], rg[1], "slice")
        if v[0] == "s" and last == "split_at" and len(a) > 1 and a[1][0] == "n":
            self.cut(st, fr, bb, line, v, a[1][1], None, "split_at")
            m = add(v[2], a[1][1])
            return ("tup", (("s", v[1], v[2], m), ("s", v[1], m, v[3])))
        if v[0] == "s" and last in ("get", "split_at_checked", "get_mut"):
            rg = self.rangeof(a[1]) if len(a) > 1 else False
            if rg is False:
                return opt(("s", R, ZERO, None))
            lo, hi = rg
            fs = [("b", v[1], add(v[2], x)) for x in (lo, hi) if x is not None]
            e = add(v[2], hi) if hi is not None else v[3]
            if hi is not None:
                fs.append(("ge", sub(self.end(v), add(v[2], hi))))
            if lo is not None and hi is not None:
                fs.append(("ge", sub(hi, lo)))
            return opt(("s", v[1], add(v[2], lo) if lo is not None else v[2], e), frozenset(fs))
        if v[0] == "s" and last in ("insert_str", "insert", "replace_range", "split_off", "truncate", "drain", "remove") and "string" in name.lower():
            if last in ("replace_range", "drain"):
                rg = self.rangeof(a[1])
                if rg is False:
                    self.oblige(st, fr, bb, line, v, ("?",), None, last)
                elif rg != (None, None):
                    self.cut(st, fr, bb, line, v, rg[0], rg[1], last)
            elif last == "truncate":
                if a[1][0] == "n":
                    self.obl[(fr, bb)] = ("trunc", line, v, a[1][1], None, st.facts, last)
            elif a[1][0] == "n":
                self.cut(st, fr, bb, line, v, a[1][1], None, last)
            self.clobber(st, fr, bb, args[0], 0)
            if last == "split_off":
                return ("s", ("R", fr, bb, "off"), ZERO, None)
            return self.mksym(("at", fr, bb, "ret"), self.placety(body, dest))
        # ---- reading texts
        if v[0] == "s":
            r = self.textcall(st, fr, body, bb, t, last, name, fn, args, a, depth)
            if r is not None:
                return r
        if v[0] in ("q", "by", "arr"):
            r = self.listcall(st, fr, body, bb, t, last, name, fn, args, a, depth)
            if r is not None:
                return r
        if v[0] in ("ch", "byte"):
            if last == "len_utf8" and v[0] == "ch":
                return self.len_utf8(fr, bb, v, st)
            if last.startswith("is_"):
                return self.charpred(last, v)
            if last in ("eq", "ne") and len(a) > 1:
                r = self.binop(st, fr, body, bb, -1, "Eq" if last == "eq" else "Ne", v, a[1], dest)
                return r
        if v[0] == "n":
            r = self.numcall(st, fr, body, bb, t, last, a)
            if r is not None:
                return r
        if v[0] == "en":
            r = self.encall(st, fr, body, bb, t, last, fn, args, a, depth)
            if r is not None:
                return r
        if v[0] in ("it", "adt", "rangei") or last in ("into_iter", "iter", "next"):
            r = self.itercall(st, fr, body, bb, t, last, fn, args, a, depth)
            if r is not None:
                return r
        if last == "new" and "RangeInclusive" in name and len(a) == 2 and a[0][0] == a[1][0] == "n":
            return ("rangei", a[0][1], a[1][1])
        if last in ("unwrap", "expect") and ("option::Option" in name or "result::Result" in name):
            self.obl[(fr, bb)] = ("unw", line, ("en", (("None", (), frozenset()),)), v, None, st.facts, last)
        if last in ("min", "max") and "cmp" in name and len(a) == 2 and a[0][0] == a[1][0] == "n":
            return self.minmax(fr, bb, last, a[0][1], a[1][1])
        if v[0] == "c" and last in ("then", "then_some") and len(a) > 1:
            fs = self.assume(st, v[1], True)
            if fs is None:
                return NONE
            if last == "then_some":
                return opt(a[1], fs)
            r, s2 = self.apply(State(st.env, fs), fr, bb, a[1], [], depth, tag="then")
            return opt(r, s2.facts) if r is not None else NONE
        return None

    def sameint(self, body, t):
        return True

    def derefen(self, st, v):
        """Option<&T> as Option<T> view"""
        if v[0] != "en":
            return v
        return ("en", tuple((n, tuple(self.deref(st, x) if x[0] == "p" else x for x in p), f) for n, p, f in v[1]))

    def minmax(self, fr, bb, op, x, y):
        if not sub(x, y)[1]:
            d = sub(x, y)[0]
            return n_(x if (d <= 0) == (op == "min") else y)
        at = ("a", fr, bb, op)
        self.meta[at] = ("alts", (x, y), op)
        return n_(A(at))

    def numcall(self, st, fr, body, bb, t, last, a):
        x = a[0][1]
        y = a[1][1] if len(a) > 1 and a[1][0] == "n" else None
        if last in ("min", "max") and y is not None:
            return self.minmax(fr, bb, last, x, y)
        if last == "saturating_sub" and y is not None:
            if self.prove_ge(sub(x, y), st.facts, 3):
                return n_(sub(x, y))
            at = ("a", fr, bb, "sat")
            self.meta[at] = ("alts", (sub(x, y), ZERO), "max")
            self.meta[("a", fr, bb, "sat")] = ("alts", (sub(x, y), ZERO), "max")
            self.meta[at + ("u",)] = None
            return n_(A(at))
        if last in ("saturating_add", "wrapping_add") and y is not None:
            return n_(add(x, y))
        if last == "div_ceil" and y is not None:
            at = ("a", fr, bb, "dc")
            self.meta[at] = ("bnd", (), (x,))
            return n_(A(at))
        if last == "checked_sub" and y is not None:
            return opt(n_(sub(x, y)), frozenset([("ge", sub(x, y))]))
        if last == "checked_add" and y is not None:
            return opt(n_(add(x, y)))
        if last == "abs_diff" and y is not None:
            at = ("a", fr, bb, "ad")
            self.meta[at] = ("alts", (sub(x, y), sub(y, x)), "max")
            return n_(A(at))
        if last == "clamp" and len(a) == 3 and a[2][0] == "n":
            at = ("a", fr, bb, "clamp")
            self.meta[at] = ("bnd", (y,), (a[2][1],))
            return n_(A(at))
        if last in ("eq", "ne", "lt", "le", "gt", "ge") and y is not None:
            return ("c", ("cmp", last, x, y))
        if last in ("add", "sub") and y is not None and "ops::arith" in (mir.fninfo(t) or {}).get("fn", ""):
            return n_(add(x, y, 1 if last == "add" else -1))
        return None

    def textcall(self, st, fr, body, bb, t, last, name, fn, args, a, depth):
        v = a[0]
        R = ("R", fr, bb, "r")
        if last == "len":
            return n_(self.length(v))
        if last == "is_empty":
            return ("c", ("cmp", "eq", self.length(v), ZERO))
        if last == "contains" and len(a) == 2:
            nd = self.needle(st, fr, bb, args[1], depth, v)
            if nd[0] in ("str", "chars"):
                return ("c", ("fact", (("has", v[1], v[2], v[3], nd), ("ge", sub(self.length(v), self.needle_len(nd))))))
        if last in ("find", "rfind") and len(a) == 2:
            nd = self.needle(st, fr, bb, args[1], depth, v)
            if v[1][0] == "K" and v[2] == ZERO and v[3] is None and nd[0] in ("str", "chars"):
                s = v[1][1]
                if nd[0] == "str":
                    i = s.find(nd[1]) if last == "find" else s.rfind(nd[1])
                else:
                    ix = [i for i, c in enumerate(s) if c in nd[1]]
                    i = (ix[0] if last == "find" else ix[-1]) if ix else -1
                if i < 0:
                    return NONE
                return some(n_(K(len(s[:i].encode()))))
            at = self.pos(fr, bb, v, nd)
            return some(n_(A(at))) if self.has(st, v, nd) else opt(n_(A(at)))
        if last == "starts_with" and len(a) == 2:
            nd = self.needle(st, fr, bb, args[1], depth, v)
            return ("c", ("fact", (("m", v[1], v[2], nd), ("ge", sub(self.length(v), self.needle_len(nd))))))
        if last == "ends_with" and len(a) == 2:
            nd = self.needle(st, fr, bb, args[1], depth, v)
            if nd[0] in ("str", "view", "asc") or nd[0] == "chars" and len({len(c.encode()) for c in nd[1]}) == 1:
                L = self.needle_len(nd)
                return ("c", ("fact", (("m", v[1], sub(self.end(v), L), nd), ("ge", sub(self.length(v), L)))))
            return ("c", ("sym", ("ew", fr, bb)))
        if last == "is_char_boundary" and a[1][0] == "n":
            return ("c", ("fact", (("b", v[1], add(v[2], a[1][1])), ("ge", sub(self.length(v), a[1][1])))))
        if last in ("floor_char_boundary", "ceil_char_boundary") and a[1][0] == "n":
            at = ("a", fr, bb, "pos")
            self.meta[at] = ("pos", v[1], v[2], None, self.end(v))
            return n_(A(at))
        if last == "is_ascii":
            return ("c", ("fact", (("asc", v[1], v[2], v[3]),)))
        if last.startswith("trim"):
            return self.trim(st, fr, bb, v, last, None)
        if last in ("strip_prefix", "strip_suffix") and len(a) == 2:
            nd = self.needle(st, fr, bb, args[1], depth, v)
            exact = nd[0] in ("str", "view", "asc") or nd[0] == "chars" and len({len(c.encode()) for c in nd[1]}) == 1
            if exact:
                L = self.needle_len(nd)
            else:
                at = self.pos(fr, bb, v, None, "sp")
                L = A(at)
            if last == "strip_prefix" and nd[0] in ("str", "chars") and ("m", v[1], v[2], nd) in st.facts:
                return some(("s", v[1], add(v[2], L), v[3]))
            if last == "strip_suffix" and exact and nd[0] in ("str", "chars") and ("m", v[1], sub(self.end(v), L), nd) in st.facts:
                return some(("s", v[1], v[2], sub(self.end(v), L)))
            if last == "strip_prefix":
                f = frozenset([("m", v[1], v[2], nd), ("ge", sub(self.length(v), L))]) if exact else frozenset()
                return opt(("s", v[1], add(v[2], L), v[3]), f)
            if not exact:
                return opt(("s", v[1], v[2], add(v[2], L)))
            f = frozenset([("m", v[1], sub(self.end(v), L), nd), ("ge", sub(self.length(v), L))])
            return opt(("s", v[1], v[2], sub(self.end(v), L)), f)
        if last in ("split_once", "rsplit_once") and len(a) == 2:
            nd = self.needle(st, fr, bb, args[1], depth, v)
            at = self.pos(fr, bb, v, nd)
            m = add(v[2], A(at))
            if nd[0] in ("str", "view", "asc") or nd[0] == "chars" and len({len(c.encode()) for c in nd[1]}) == 1:
                e = add(m, self.needle_len(nd))
            else:
                e = add(m, A(self.pos(fr, bb, ("s", v[1], m, v[3]), None, "pos2")))
            pair = ("tup", (("s", v[1], v[2], m), ("s", v[1], e, v[3])))
            return some(pair) if self.has(st, v, nd) else opt(pair)
        if last == "chars":
            return ("it", ("chars", v, True))
        if last == "char_indices":
            return ("it", ("ci", v))
        if last in ("split", "rsplit", "splitn", "rsplitn", "split_whitespace", "lines", "split_terminator", "split_inclusive",
                    "split_ascii_whitespace"):
            return ("it", ("split", v, last))
        if last in ("match_indices", "rmatch_indices"):
            nd = self.needle(st, fr, bb, args[1], depth, v)
            return ("it", ("mi", v, nd))
        if last in ("eq", "ne") and len(a) > 1 and a[1][0] == "s":
            w = a[1]
            k, o = (w, v) if w[1][0] == "K" else (v, w)
            if k[1][0] == "K" and k[2] == ZERO and k[3] is None:
                d = sub(self.length(o), K(len(k[1][1].encode())))
                c = ("fact", (("m", o[1], o[2], ("str", k[1][1])), ("ge", d), ("ge", scale(d, -1))))
                return ("c", c if last == "eq" else ("not", c))
            return ("c", ("sym", ("eq", fr, bb)))
        if last in ("push_str", "push", "clear", "write_str", "write_fmt", "write_char", "extend", "add_assign", "retain", "insert_str",
                    "make_ascii_lowercase", "make_ascii_uppercase", "pop"):
            if last.startswith("make_ascii"):
                return ("tup", ())
            self.clobber(st, fr, bb, args[0], 0)
            if last == "clear":
                pass
            if last == "pop":
                return opt(("ch", ("sym", ("at", fr, bb, "pop")), None))
            return None if last in ("write_fmt",) else self.mksym(("at", fr, bb, "ret"), self.placety(body, t[4]))
        if last in ("parse", "contains", "to_lowercase", "to_uppercase", "replace", "replacen", "repeat", "cmp", "eq_ignore_ascii_case",
                    "hash", "capacity", "as_ptr", "chars_rev", "reserve"):
            return self.mksym(("at", fr, bb, "ret"), self.placety(body, t[4]))
        return None

    def listcall(self, st, fr, body, bb, t, last, name, fn, args, a, depth):
        v = a[0]
        if v[0] == "arr":
            if last == "len":
                return n_(K(len(v[1])))
            if last == "is_empty":
                return FALSE if v[1] else TRUE
            if last in ("iter", "into_iter", "iter_mut"):
                return ("it", ("arr", v[1], fr, bb))
            return None
        if last == "len":
            return n_(self.length(v))
        if last == "is_empty":
            return ("c", ("cmp", "eq", self.length(v), ZERO))
        if last in ("iter", "into_iter", "iter_mut"):
            return ("it", ("seqit", v))
        if last in ("first", "last", "get", "first_mut", "last_mut", "get_mut"):
            el = self.mksym(("at", fr, bb, "el"), self.payty(body, t[4]))
            fs = [("ge", add(self.length(v), K(-1)))]
            if last.startswith("get") and len(a) > 1 and a[1][0] == "n":
                fs = [("ge", add(sub(self.length(v), a[1][1]), K(-1)))]
                if v[0] == "by" and el[0] != "p":
                    el = ("byte", v[1], add(v[2], a[1][1]))
            elif last.startswith("get"):
                rg = self.rangeof(a[1]) if len(a) > 1 else False
                if rg and v[0] == "by":
                    lo, hi = rg
                    el = (v[0], v[1], add(v[2], lo) if lo else v[2], add(v[2], hi) if hi else v[3])
                fs = []
            elif v[0] == "by" and last == "first":
                el = ("byte", v[1], v[2])
            elif v[0] == "by" and last == "last":
                el = ("byte", v[1], sub(self.end(v), K(1)))
            if fs and self.prove_ge(fs[0][1], st.facts, 4):
                return some(el)
            return opt(el, frozenset(fs))
        if last in ("starts_with", "ends_with") and v[0] == "by":
            return ("c", ("sym", ("bsw", fr, bb)))
        if last in ("push", "insert", "remove", "pop", "truncate", "clear", "extend", "append", "drain", "retain", "swap_remove",
                    "resize", "dedup", "extend_from_slice", "split_off", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "swap",
                    "sort_unstable_by", "fill"):
            old = v
            L = self.length(v)
            if last in ("insert", "remove", "swap_remove") and len(a) > 1 and a[1][0] == "n":
                lim = L if last == "insert" else sub(L, K(1))
                self.obl[(fr, bb)] = ("lim", t[0], a[1], lim, None, st.facts, last)
            if last in ("reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "swap", "sort_unstable_by", "fill"):
                return ("tup", ())
            nv = ("q", ("R", fr, bb, "mut"), ZERO, None)
            if last in ("push", "insert"):
                nv = ("q", ("R", fr, bb, "mut"), ZERO, add(L, K(1)))
            elif last == "clear":
                nv = ("q", ("R", fr, bb, "mut"), ZERO, ZERO)
            self.put(st, args[0], nv, v)
            if last == "pop" and not isinstance(L, type(None)):
                el = self.mksym(("at", fr, bb, "el"), self.payty(body, t[4]))
                f = ("ge", add(L, K(-1)))
                return some(el) if self.prove_ge(f[1], st.facts, 4) else opt(el, frozenset([f]))
            return None if last in ("retain", "drain", "extend", "split_off", "append", "resize") else \
                self.mksym(("at", fr, bb, "ret"), self.placety(body, t[4]))
        if last in ("join", "concat"):
            return ("s", ("R", fr, bb, "r"), ZERO, None)
        return None

    def put(self, st, ref, val, old):
        if ref[0] == "p":
            self.store(st, ref[1], [ref[2], [list(x) for x in ref[3]]], val)
        else:
            self.rebind(st, old, val)

    def payty(self, body, place):
        """type of the payload of the Option the place holds"""
        t = self.placety(body, place)
        if t.get("a"):
            try:
                return body.ty(t["a"][0])
            except Exception:
                pass
        return {"s": "?"}

    # ---- options
    def encall(self, st, fr, body, bb, t, last, fn, args, a, depth):
        v = self.derefen(st, a[0])
        cur = {x[0]: x for x in v[1]}
        S = cur.get("Some") or cur.get("Ok")
        N = cur.get("None") or cur.get("Err")
        isopt = "Some" in cur or "None" in cur
        good = "Some" if isopt else "Ok"
        dest = t[4]

        def js(xs, tag="j"):
            """xs: [(val, state)]"""
            xs = [(x, s) for x, s in xs if x is not None and s is not None]
            if not xs:
                return "diverge"
            if len(xs) == 1:
                st.env, st.facts = xs[0][1].env, xs[0][1].facts
                return xs[0][0]
            j = self.join(fr, (bb, tag), [s for _, s in xs], [False] * len(xs))
            r = self.joinval([(x, s.facts) for x, s in xs], (fr, (bb, tag), ("v",)))
            st.env, st.facts = j.env, j.facts
            return r

        def sst():
            return State(st.env, st.facts | S[2])

        def nst():
            return State(st.env, st.facts | N[2])
        if last == "branch":
            out = []
            if N:
                out.append(("Break", N[1] if not isopt else (NONE,), N[2]))
            if S:
                out.append(("Continue", S[1], S[2]))
            return ("en", tuple(out))
        if last in ("unwrap", "expect"):
            self.obl[(fr, bb)] = ("unw", t[0], v, None, None, st.facts, last)
            if not S:
                return "diverge"
            st.facts = st.facts | S[2]
            return S[1][0]
        if last in ("is_some", "is_ok", "is_none", "is_err"):
            alts = []
            pos = last in ("is_some", "is_ok")
            if S:
                alts.append((("true",) if pos else ("false",), st.facts | S[2]))
            if N:
                alts.append((("false",) if pos else ("true",), st.facts | N[2]))
            return ("c", ("alt", tuple(alts)))
        if last == "unwrap_or" and len(a) > 1:
            return js(([(S[1][0], sst())] if S else []) + ([(a[1], nst())] if N else []))
        if last == "unwrap_or_default":
            ty = self.placety(body, dest)["s"]
            dv = n_(ZERO) if ty in UINTS else ("s", ("K", ""), ZERO, None) if ty in ("&str", "std::string::String") else \
                self.mksym(("at", fr, bb, "dflt"), ty)
            return js(([(S[1][0], sst())] if S else []) + ([(dv, nst())] if N else []))
        if last == "unwrap_or_else" and len(a) > 1:
            xs = [(S[1][0], sst())] if S else []
            if N:
                xs.append(self.apply(nst(), fr, bb, a[1], [] if isopt else list(N[1]), depth, tag="uoe"))
            return js(xs)
        if last in ("map", "inspect") and len(a) > 1:
            if not S:
                return v
            r, s2 = self.apply(sst(), fr, bb, a[1], list(S[1]), depth, tag="map")
            out = [x for x in v[1] if x[0] in ("None", "Err")]
            if r is not None:
                out.append((good, (r if last == "map" else S[1][0],), s2.facts))
                self.carry(st, s2)
            return ("en", tuple(sorted(out)))
        if last in ("and_then",) and len(a) > 1:
            if not S:
                return v
            r, s2 = self.apply(sst(), fr, bb, a[1], list(S[1]), depth, tag="at")
            xs = []
            if r is not None:
                xs.append((r if r[0] == "en" else ("sym", ("at", fr, bb, "at")), s2))
            if N:
                xs.append((("en", (N,)), nst()))
            return js(xs)
        if last in ("or_else", "or") and len(a) > 1:
            xs = [(("en", (S,)), sst())] if S else []
            if N:
                if last == "or":
                    xs.append((a[1], nst()))
                else:
                    xs.append(self.apply(nst(), fr, bb, a[1], [] if isopt else list(N[1]), depth, tag="oe"))
            xs = [(x if x is None or x[0] == "en" else ("sym", ("at", fr, bb, "oe")), s) for x, s in xs]
            return js(xs)
        if last == "filter" and len(a) > 1:
            if not S:
                return v
            r, s2 = self.apply(sst(), fr, bb, a[1], list(S[1]), depth, tag="fl")
            fs = S[2]
            if r is not None and r[0] == "c":
                g = self.assume(State({}, s2.facts), r[1], True)
                if g is None:
                    return NONE
                fs = g
            return ("en", (("None", (), frozenset()), ("Some", S[1], fs)))
        if last == "map_or" and len(a) > 2:
            xs = [(a[1], nst())] if N else []
            if S:
                xs.append(self.apply(sst(), fr, bb, a[2], list(S[1]), depth, tag="mo"))
            return js(xs)
        if last == "map_or_else" and len(a) > 2:
            xs = [self.apply(nst(), fr, bb, a[1], [] if isopt else list(N[1]), depth, tag="mn")] if N else []
            if S:
                xs.append(self.apply(sst(), fr, bb, a[2], list(S[1]), depth, tag="mo"))
            return js(xs)
        if last == "is_some_and" and len(a) > 1:
            alts = []
            if N:
                alts.append((("false",), st.facts | N[2]))
            if S:
                r, s2 = self.apply(sst(), fr, bb, a[1], list(S[1]), depth, tag="isa")
                if r is not None and r[0] == "c":
                    alts.append((self.flatc(r[1]), s2.facts))
                else:
                    alts.append((("sym", ("isa", fr, bb)), st.facts))
            return ("c", ("alt", tuple(alts)))
        if last in ("ok_or", "ok_or_else", "map_err"):
            out = []
            if N:
                out.append(("Err", (("sym", ("at", fr, bb, "err")),), N[2]))
            if S:
                out.append(("Ok", S[1], S[2]))
            return ("en", tuple(out))
        if last == "ok":
            out = []
            if N:
                out.append(("None", (), N[2]))
            if S:
                out.append(("Some", S[1], S[2]))
            return ("en", tuple(out))
        if last in ("take", "replace") and isopt:
            self.put(st, args[0], NONE if last == "take" else some(a[1]), a[0])
            return v
        if last == "from_residual":
            return v
        if last == "zip" and len(a) > 1 and a[1][0] == "en":
            T = {x[0]: x for x in a[1][1]}.get("Some")
            if S and T:
                return ("en", (("None", (), frozenset()), ("Some", (("tup", (S[1][0], T[1][0])),), S[2] | T[2])))
            return NONE
        if last in ("eq", "ne"):
            return ("c", ("sym", ("eneq", fr, bb)))
        return None

    def carry(self, st, s2):
        for k, v in s2.env.items():
            if k[0] == "h" or k in st.env:
                if st.env.get(k) != v:
                    # the closure wrote something: unknown which branch ran
                    st.env[k] = self.joinval([(st.env.get(k, v), st.facts), (v, s2.facts)], ((), "carry", (k,)))

    # ---- iterators
    def itercall(self, st, fr, body, bb, t, last, fn, args, a, depth):
        v = a[0]
        if last in ("into_iter", "iter", "by_ref") and v[0] in ("it", "adt", "rangei"):
            if last == "by_ref":
                return args[0]
            if v[0] == "adt" and v[1].split("::")[-1] not in ("Range", "RangeFrom"):
                return None
            return v
        if v[0] in ("adt", "rangei"):
            nm = "RangeInclusive" if v[0] == "rangei" else v[1].split("::")[-1]
            if nm not in ("Range", "RangeInclusive", "RangeFrom"):
                return None
            rg = self.rangeof(v)
            if rg is False:
                return None
            if last in ("contains",):
                x = a[1]
                if x[0] == "n":
                    cs = []
                    c = ("cmp", "ge", x[1], rg[0]) if rg[0] is not None else ("true",)
                    d = ("cmp", "lt", x[1], rg[1]) if rg[1] is not None else ("true",)
                    return ("c", ("and", c, d))
                return None
            v = ("it", ("range",) + rg)
        if v[0] != "it":
            return None
        g = v[1]
        if last in ("rev", "peekable", "skip", "take", "step_by", "skip_while", "fuse", "cloned", "copied", "into_iter", "by_ref"):
            if g[0] == "chars" and last in ("rev", "skip", "skip_while", "step_by"):
                g = ("chars", g[1], False)
            return ("it", g)
        if last == "take_while" and len(a) > 1:
            return ("it", ("tw", g, a[1]))
        if last == "filter" and len(a) > 1:
            if g[0] == "chars":
                g = ("chars", g[1], False)
            return ("it", ("filter", g, a[1]))
        if last == "enumerate":
            return ("it", ("enum", g))
        if last in ("map", "filter_map", "flat_map") and len(a) > 1:
            return ("it", ("map" if last == "map" else "fmap", g, a[1]))
        if last == "zip":
            return ("it", ("zip", g))
        if last in ("windows", "chunks"):
            return None
        if last in ("next", "next_back", "nth", "last", "peek", "min", "max", "nth_back"):
            first = g[0] == "chars" and g[2] and last in ("next", "peek")
            item, s2 = self.item(st, fr, bb, g, depth, "it", first)
            if s2 is None or item is None:
                return NONE
            if g[0] == "chars" and g[2] and last in ("next", "nth"):
                self.put(st, args[0], ("it", ("chars", g[1], False)), a[0])
            src = g[1] if g[0] == "seqit" or g[0] == "chars" and g[2] else \
                g[1][1] if g[0] in ("map", "enum") and isinstance(g[1], tuple) and g[1][0] in ("seqit",) else None
            if src is not None and (first or last in ("last", "min", "max", "next_back")) and \
                    self.prove_ge(add(self.length(src), K(-1)), st.facts, 4):
                return some(item)
            if g[0] == "split" and last in ("next", "next_back") and g[2] in ("split", "rsplit", "splitn", "rsplitn"):
                self.put(st, args[0], ("it", ("split", g[1], g[2] + "*")), a[0])
                return some(item)
            if first:
                return opt(item, s2.facts | frozenset([("ge", add(self.length(g[1]), K(-1)))]))
            return opt(item, s2.facts)
        if last in ("find", "rfind") and len(a) > 1:
            item, s2 = self.item(st, fr, bb, g, depth, "it")
            if item is None:
                return NONE
            r, s3 = self.apply(s2, fr, bb, a[1], [item], depth, tag="fp")
            fs = s2.facts
            if r is not None and r[0] == "c":
                q = self.assume(State({}, s3.facts), r[1], True)
                if q is None:
                    return NONE
                fs = q
            return opt(item, fs)
        if last in ("find_map",) and len(a) > 1:
            item, s2 = self.item(st, fr, bb, g, depth, "it")
            if item is None:
                return NONE
            r, s3 = self.apply(s2, fr, bb, a[1], [item], depth, tag="fm")
            if r is not None and r[0] == "en":
                S = [x for x in r[1] if x[0] == "Some"]
                if not S:
                    return NONE
                return ("en", (("None", (), frozenset()), S[0]))
            return opt(("sym", ("at", fr, bb, "fm")))
        if last in ("position", "rposition") and len(a) > 1:
            item, s2 = self.item(st, fr, bb, g, depth, "it")
            nd = None
            if item is not None:
                r, s3 = self.apply(s2, fr, bb, a[1], [item], depth, tag="pp")
                if g[0] == "seqit" and g[1][0] == "by" and r is not None and r[0] == "c" and item[0] == "byte":
                    q = self.assume(State({}, s3.facts), r[1], True)
                    ms = [f for f in (q or ()) if f[0] == "m" and f[1] == item[1] and f[2] == item[2]]
                    if ms:
                        nd = ms[0][3]
                    elif q and ("b", item[1], item[2]) in q:
                        nd = ("asc",)
            if g[0] == "seqit":
                if g[1][0] == "by":
                    if nd is not None:
                        return opt(n_(A(self.pos(fr, bb, g[1], nd))))
                    at = ("a", fr, bb, "bpos")
                    self.meta[at] = ("bnd", (), (sub(self.length(g[1]), K(1)),))
                    return opt(n_(A(at)))
                at = ("a", fr, bb, "lpos")
                self.meta[at] = ("bnd", (), (sub(self.length(g[1]), K(1)),))
                return opt(n_(A(at)))
            return opt(n_(A(("a", fr, bb, "count"))))
        if last in ("count",):
            if g[0] == "tw":
                v1 = g[1][1]
                item, s2 = self.item(st, fr, bb, g[1], depth, "it")
                if item is not None and item[0] in ("ch", "byte") and (g[1][0] == "seqit" or g[1][0] == "chars" and g[1][2]):
                    r, s3 = self.apply(s2, fr, bb, g[2], [item], depth, tag="tw")
                    q = self.assume(State({}, s3.facts), r[1], True) if r is not None and r[0] == "c" else None
                    if q is not None and (item[0] == "ch" and ("chasc", item[1]) in q or
                                          item[0] == "byte" and any(f[0] in ("m", "b") and f[1] == item[1] and f[2] == item[2] for f in q)):
                        return n_(A(self.pos(fr, bb, v1, None, "tw")))
                return ("n", A(("a", fr, bb, "twcount")))
            at = ("a", fr, bb, "count")
            if g[0] in ("chars", "ci"):
                self.meta[at] = ("bnd", (), (self.length(g[1]),))
            return n_(A(at))
        if last in ("all", "any") and len(a) > 1:
            item, s2 = self.item(st, fr, bb, g, depth, "it")
            if item is None:
                return ("c", ("sym", ("all", fr, bb)))
            r, s3 = self.apply(s2, fr, bb, a[1], [item], depth, tag="all")
            if last == "all" and r is not None and r[0] == "c" and item[0] in ("ch", "byte"):
                q = self.assume(State({}, s3.facts), r[1], True)
                src = g[1] if g[0] in ("chars", "seqit") else None
                if q is not None and src is not None and (item[0] == "ch" and ("chasc", item[1]) in q or
                                                          item[0] == "byte" and any(f[0] in ("m", "b") and f[1] == item[1] and f[2] == item[2] for f in q)):
                    return ("c", ("fact", (("asc", src[1], src[2], src[3]),)))
            if last == "any" and r is not None and r[0] == "c" and item[0] in ("ch", "byte"):
                q = self.assume(State({}, s3.facts), r[1], False)
            return ("c", ("sym", ("all", fr, bb)))
        if last in ("collect",):
            g0 = g
            while g0[0] in ("map", "enum"):
                g0 = g0[1]
            if g0[0] == "split" and g0[2] in ("split", "rsplit", "splitn", "rsplitn"):
                self.item(st, fr, bb, g, depth, "it")
                r = self.mksym(("at", fr, bb, "ret"), self.placety(body, t[4]))
                if r[0] == "q":
                    r = ("q", ("R", fr, bb, "col"), ZERO, None)
                    st.facts = st.facts | frozenset([("ge", add(self.length(r), K(-1)))])
                return r
            if g[0] == "seqit" or g[0] in ("map", "enum") and g[1][0] == "seqit":
                src = g[1] if g[0] == "seqit" else g[1][1]
                r = self.mksym(("at", fr, bb, "ret"), self.placety(body, t[4]))
                if g[0] == "map":
                    it, s2 = self.item(st, fr, bb, g, depth, "it")
                if r[0] == "q":
                    return ("q", ("R", fr, bb, "col"), ZERO, self.length(src))
                return r
            self.item(st, fr, bb, g, depth, "it")
            return self.mksym(("at", fr, bb, "ret"), self.placety(body, t[4]))
        if last in ("for_each", "fold", "sum", "try_fold", "product", "max_by", "min_by", "max_by_key", "min_by_key", "for_each", "any", "partition",
                    "unzip", "sum", "extend", "chain", "scan", "map_while", "as_str", "size_hint", "len", "try_for_each"):
            if last == "as_str" and g[0] == "chars":
                if g[2]:
                    return g[1]
                at = self.pos(fr, bb, g[1], None, "as")
                return ("s", g[1][1], add(g[1][2], A(at)), g[1][3])
            item, s2 = self.item(st, fr, bb, g, depth, "it")
            if item is not None and last in ("for_each", "map_while", "max_by_key", "min_by_key"):
                self.apply(s2, fr, bb, a[1], [item], depth, tag="fe")
            return None
        return None

    def item(self, st, fr, bb, g, depth, tag, first=False):
        """one element the iterator may yield: (value, state) ; (None, None) if it cannot"""
        k = g[0]
        if k == "chars":
            v = g[1]
            if first:
                return ("ch", ("loc", v[1], v[2]), None), st.copy()
            at = self.pos(fr, bb, v, ("any",), (tag, "cp"))
            return ("ch", ("loc", v[1], add(v[2], A(at))), None), st.copy()
        if k == "ci":
            v = g[1]
            at = ("a", fr, bb, (tag, "ci"))
            ch = ("loc", v[1], add(v[2], A(at)))
            cl = ("clen", v[1], add(v[2], A(at)))
            self.meta[at] = ("pos", v[1], v[2], ("clen", cl), self.end(v))
            self.meta[cl] = ("pos", v[1], add(v[2], A(at)), None, self.end(v))
            return ("tup", (n_(A(at)), ("ch", ch, None))), st.copy()
        if k == "mi":
            v = g[1]
            at = self.pos(fr, bb, v, g[2], (tag, "mi"))
            m = add(v[2], A(at))
            return ("tup", (n_(A(at)), ("s", v[1], m, add(m, self.needle_len(g[2])) if g[2][0] in ("str", "view") else None))), st.copy()
        if k == "split":
            v = g[1]
            a1 = self.pos(fr, bb, v, None, (tag, "s0"))
            lo = add(v[2], A(a1))
            a2 = self.pos(fr, bb, ("s", v[1], lo, v[3]), None, (tag, "s1"))
            return ("s", v[1], lo, add(lo, A(a2))), st.copy()
        if k == "seqit":
            v = g[1]
            if v[0] == "by":
                at = ("a", fr, bb, (tag, "bi"))
                self.meta[at] = ("bnd", (), (sub(self.length(v), K(1)),))
                return ("byte", v[1], add(v[2], A(at))), st.copy()
            return ("sym", ("at", fr, bb, (tag, "el"))), st.copy()
        if k == "range":
            lo, hi = g[1], g[2]
            at = ("a", fr, bb, (tag, "ri"))
            self.meta[at] = ("bnd", (lo,) if lo is not None else (), (sub(hi, K(1)),) if hi is not None else ())
            s = st.copy()
            if lo is not None and hi is not None:
                d = add(sub(hi, lo), K(-1))
                if not d[1] and d[0] < 0:
                    return None, None
                if d[1]:
                    s.facts = s.facts | frozenset([("ge", d)])
            return n_(A(at)), s
        if k == "arr":
            if not g[1]:
                return None, None
            return self.joinval([(x, frozenset()) for x in g[1]], (fr, (bb, tag), ("arr",))), st.copy()
        if k == "enum":
            x, s = self.item(st, fr, bb, g[1], depth, tag)
            if x is None:
                return None, None
            at = ("a", fr, bb, (tag, "en"))
            g1 = g[1]
            if g1[0] == "seqit":
                self.meta[at] = ("bnd", (), (sub(self.length(g1[1]), K(1)),))
                if x[0] == "byte":
                    x = ("byte", g1[1][1], add(g1[1][2], A(at)))
            elif g1[0] == "chars":
                self.meta[at] = ("bnd", (), (sub(self.length(g1[1]), K(1)),))
            return ("tup", (n_(A(at)), x)), s
        if k in ("filter", "tw"):
            x, s = self.item(st, fr, bb, g[1], depth, tag)
            if x is None:
                return None, None
            r, s2 = self.apply(s, fr, bb, g[2], [x], depth, tag=(tag, "f"))
            if r is not None and r[0] == "c":
                q = self.assume(State({}, s2.facts), r[1], True)
                if q is not None:
                    s = State(s.env, q)
            return x, s
        if k in ("map", "fmap"):
            x, s = self.item(st, fr, bb, g[1], depth, tag)
            if x is None:
                return None, None
            r, s2 = self.apply(s, fr, bb, g[2], [x], depth, tag=(tag, "m"))
            if k == "fmap":
                if r is not None and r[0] == "en":
                    S = [y for y in r[1] if y[0] == "Some"]
                    if not S:
                        return None, None
                    return S[0][1][0], State(s2.env, s2.facts | S[0][2])
                return ("sym", ("at", fr, bb, (tag, "fm"))), s
            return r, s2
        return ("sym", ("at", fr, bb, (tag, "?"))), st.copy()


class HDict(dict):
    def __hash__(self):
        return hash(tuple(sorted(self.items())))


def tup(x):
    return tuple(x) if isinstance(x, list) else x


def analyse(P, body, inline=None):
    e = Engine(P, body, inline)
    fr = ((body.id,),)
    e.bodies[fr] = body
    args = [e.mksym(("arg", i), body.lty(i)) for i in range(1, body.argc + 1)]
    e.run(fr, body, args, State())
    return e

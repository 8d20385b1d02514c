"""Symbolic values over MIR: interned expression trees obtained by resolving
operands backwards through definitions.  No execution: a value is a description
of where data comes from (constants, parameters, fields, calls, merges)."""
import re
import sys
import mir

sys.setrecursionlimit(20000)


class V:
    """interned node; compare with `is`"""
    __slots__ = ("k", "a", "depth", "vol", "n")
    _tab = {}
    _n = 0

    def __repr__(self):
        return pretty(self)


def mk(k, *a):
    key = (k, a)
    v = V._tab.get(key)
    if v is None:
        v = V()
        v.k, v.a = k, a
        d, vol = 0, frozenset()
        st = list(a)
        for x in st:
            if isinstance(x, V):
                if x.depth > d:
                    d = x.depth
                vol |= x.vol
            elif isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Frame):
                if x.depth > d:
                    d = x.depth
                vol |= x.vol
        v.depth = d + 1
        if k in ("elem", "chr", "idx"):
            vol = vol | {v}
        v.vol = vol
        V._n += 1
        v.n = V._n
        V._tab[key] = v
    return v


class Frame:
    """a body together with what its parameters are bound to"""
    __slots__ = ("body", "args", "depth", "vol", "n", "cache")
    _tab = {}

    def __repr__(self):
        return "<Frame %s>" % self.body.id


def frame(body, args):
    key = (body.id, args)
    f = Frame._tab.get(key)
    if f is None:
        f = Frame()
        f.body, f.args = body, args
        f.depth = max([x.depth for x in args if x is not None] or [0]) + 1
        vol = frozenset()
        for x in args:
            if x is not None:
                vol |= x.vol
        f.vol = vol
        f.n = len(Frame._tab)
        f.cache = {}
        Frame._tab[key] = f
    return f


UNK = mk("?")
DEAD = mk("dead")          # value of an impossible projection


def const(ty, val):
    return mk("c", ty, val)


def S(s):
    return mk("c", "str", s)


def fname(n):
    """short readable name of a function path"""
    import re
    n = re.sub(r"<impl [^>]*>::", "", n)
    parts = n.split("::")
    return "::".join(parts[-2:]) if len(parts) > 1 else n


def pretty(v, d=0):
    if v is None:
        return "_"
    if d > 8:
        return ".."
    p = lambda x: pretty(x, d + 1)
    k, a = v.k, v.a
    if k == "c":
        return repr(a[1]) if a[0] in ("str", "char") else str(a[1])
    if k == "arg":
        return a[1]
    if k == "f":
        b = p(a[0])
        return b if str(a[2]) == "0" and a[1] in ("Some", "Ok", "Continue") else "%s.%s" % (b, a[2])
    if k == "app":
        f = a[0]
        return "%s(%s)" % (fname(f.body.id), ", ".join(p(x) for x in f.args))
    if k == "ext":
        if a[1] and len(a[1]) == 1:
            return "%s.%s()" % (p(a[1][0]), a[0].split("::")[-1])
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(p(x) for x in a[1]))
    if k == "elem":
        return p(a[0]) + "[]"
    if k == "chr":
        return p(a[0]) + "[c]"
    if k == "idx":
        return "i(%s)" % p(a[0])
    if k == "pick":
        return "{%s}" % "|".join(p(x) for x in a[1][:4])
    if k in ("phi", "buf", "mut", "mref", "loc"):
        f = a[0]
        return f.body.names.get(a[1], "_%d" % a[1]) + ("." + ".".join(map(str, a[2])) if k == "mref" and a[2] else "")
    if k == "agg":
        return "%s{%s}" % (a[1] or fname(str(a[0])), ", ".join(p(x) for x in a[2]))
    if k == "bin":
        return "(%s %s %s)" % (p(a[1]), a[0], p(a[2]))
    if k in ("un", "cast"):
        return "%s(%s)" % (a[0], p(a[1]))
    if k == "discr":
        return "discr(%s)" % p(a[0])
    if k == "optalt":
        return "%s|%s" % (p(a[1]), p(a[2]))
    if k == "alt":
        return "|".join(p(x) for x in a[0])
    return k


# ---------------------------------------------------------------- resolver

TRANSPARENT = set("""
alloc::string::String::as_str
alloc::string::String::as_bytes
alloc::string::String::into_bytes
alloc::string::String::into_boxed_str
core::str::<impl str>::as_bytes
core::hint::must_use
core::convert::AsRef::as_ref
core::convert::Into::into
core::convert::From::from
core::clone::Clone::clone
core::borrow::Borrow::borrow
alloc::borrow::ToOwned::to_owned
alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned
alloc::slice::<impl [T]>::to_vec
alloc::slice::<impl [T]>::into_vec
alloc::vec::Vec::<T, A>::as_slice
alloc::vec::Vec::<T, A>::as_mut_slice
alloc::borrow::Cow::<'_, B>::into_owned
alloc::string::String::from_utf8_lossy
alloc::boxed::Box::<T>::new
alloc::boxed::box_assume_init_into_vec_unsafe
core::option::Option::<T>::as_ref
core::option::Option::<T>::as_mut
core::option::Option::<T>::as_deref
core::option::Option::<T>::as_deref_mut
core::option::Option::<&T>::cloned
core::option::Option::<&T>::copied
core::mem::take
core::option::Option::<T>::take
core::iter::traits::collect::IntoIterator::into_iter
core::slice::<impl [T]>::iter
core::slice::<impl [T]>::iter_mut
core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::copied
core::iter::traits::iterator::Iterator::by_ref
core::iter::traits::iterator::Iterator::peekable
core::iter::traits::iterator::Iterator::rev
core::convert::identity
alloc::fmt::format
""".split("\n")[1:-1])
TRANSPARENT_SUFFIX = ("as core::clone::Clone>::clone", "as core::ops::deref::Deref>::deref",
                      "as core::ops::deref::DerefMut>::deref_mut", "::into_iter",
                      "as core::convert::AsRef<T>>::as_ref", "as core::convert::From<&str>>::from",
                      "as core::convert::From<&T>>::from",
                      "as core::convert::Into<U>>::into", "as alloc::borrow::ToOwned>::to_owned",
                      "as core::convert::From<alloc::string::String>>::from", "> for &T>::clone",
                      "core::clone::Clone for &T>::clone")


def is_transparent(n):
    if n in TRANSPARENT:
        return True
    if n.startswith("core::clone::impls::<impl"):
        return True
    return n.endswith(TRANSPARENT_SUFFIX)


class Resolver:
    def __init__(self, prog):
        self.P = prog
        self._di = {}
        self.pushes = {}

    # -- definition index
    def defs(self, body):
        d = self._di.get(body.id)
        if d is None:
            d = DefIndex(body)
            self._di[body.id] = d
        return d

    def root(self, body, bind=None):
        """frame whose parameters are free (or bound by name via `bind`)"""
        args = []
        for i in range(1, body.argc + 1):
            n = body.names.get(i) or "_%d" % i
            v = mk("arg", body.id, n, i)
            if bind and i in bind:
                v = bind[i]
            elif body.kind == "closure" and i == 1:
                v = mk("arg", body.id, "env", i)
            args.append(v)
        return frame(body, tuple(args))

    # -- operands
    def operand(self, fr, blk, idx, o):
        if "k" in o:
            return self.constant(fr, o)
        p = o.get("c") or o.get("m")
        return self.place(fr, blk, idx, p)

    def constant(self, fr, o):
        b = fr.body
        k = o["k"]
        t = o.get("t", -1)
        ty = b.ty(t) if isinstance(t, int) and t >= 0 else {"k": "?", "s": "?"}
        return self.cval(b, k, ty)

    def cval(self, b, k, ty):
        if not isinstance(k, dict):
            return UNK
        if "fn" in k:
            return mk("fn", self.P.resolve_id(b.crate, k.get("res") or k["fn"]), k["fn"],
                      tuple(b.ty(x)["s"] for x in k.get("a", [])))
        if "str" in k:
            return mk("c", "str", k["str"])
        if "i" in k:
            return mk("c", "int", k["i"])
        if "b" in k:
            return mk("c", "bool", int(k["b"]))
        if "ch" in k:
            return mk("c", "char", k["ch"] if isinstance(k["ch"], str) else chr(k["ch"]))
        if "f" in k:
            return mk("c", "float", str(k["f"]))
        if "bytes" in k:
            return mk("c", "bytes", bytes(k["bytes"]))
        if "ref" in k:
            inner = {"k": "?", "s": "?"}
            if ty["k"] in ("ref", "ptr"):
                inner = b.ty(ty["a"][0])
            return self.cval(b, k["ref"], inner)
        if "arr" in k:
            return mk("agg", "array", "", tuple(self.cval(b, x, {"k": "?", "s": "?"}) for x in k["arr"]))
        if "tup" in k:
            return mk("agg", "tuple", "", tuple(self.cval(b, x, {"k": "?", "s": "?"}) for x in k["tup"]))
        if "var" in k:
            f = k.get("f", k.get("fields", []))
            return mk("agg", ty.get("d", "?"), k["var"], tuple(self.cval(b, x, {"k": "?", "s": "?"}) for x in f))
        if "struct" in k:
            f = k["struct"]
            f = list(f.values()) if isinstance(f, dict) else f
            return mk("agg", ty.get("d", "?"), "", tuple(self.cval(b, x, {"k": "?", "s": "?"}) for x in f))
        if "z" in k:
            if ty["k"] == "closure":
                return mk("clo", self.P.resolve_id(b.crate, ty["d"]), ())
            if ty["k"] == "adt":
                return mk("agg", ty["d"], "", ())
            if ty["k"] == "tuple":
                return mk("agg", "tuple", "", ())
            return mk("c", "unit", 0)
        return UNK

    # -- places
    def place(self, fr, blk, idx, p):
        local, projs = p
        v = self.local(fr, blk, idx, local, projs)
        return v

    def projlist(self, fr, blk, idx, projs):
        """normalise projections to (variant, field, ty) / index steps"""
        out, var = [], ""
        for e in projs:
            if e[0] == "*":
                continue
            if e[0] == "d":
                var = e[2]
            elif e[0] == "f":
                out.append(("f", var, e[2], fr.body.ty(e[4])["s"] if len(e) > 4 else ""))
                var = ""
            elif e[0] in ("i", "ci", "sub"):
                if e[0] == "ci":
                    out.append(("ci", e[1], e[3]))
                else:
                    out.append(("i",))
                var = ""
            else:
                out.append(("?",))
        return out

    def apply(self, v, steps):
        for s in steps:
            if v is DEAD:
                return DEAD
            if s[0] == "f":
                v = self.project(v, s[1], s[2], s[3] if len(s) > 3 else "")
            elif s[0] == "ci":
                v = self.index(v, s[1], s[2])
            elif s[0] == "i":
                v = self.elem(v)
            else:
                v = UNK
        return v

    def index(self, v, i, from_end):
        if v.k == "agg" and v.a[0] == "array" and not from_end and i < len(v.a[2]):
            return v.a[2][i]
        return self.elem(v)

    def local(self, fr, blk, idx, local, projs):
        body = fr.body
        D = self.defs(body)
        steps = self.projlist(fr, blk, idx, projs)
        li = D.info[local]
        if 1 <= local <= body.argc:
            if not li.full and not li.partial and not li.mutb:
                a = fr.args[local - 1]
                return self.apply(a if a is not None else UNK, steps)
            if body.lty(local)["k"] == "ref":
                # reference parameter: identity is the caller's object
                if li.mutb or li.partial:
                    return self._mut(fr, local, blk, idx, steps)
                a = fr.args[local - 1]
                return self.apply(a if a is not None else UNK, steps)
            return self._mut(fr, local, blk, idx, steps)
        if len(li.full) == 1 and not li.partial and not li.mutb:
            d = li.full[0]
            return self.apply(self.defval(fr, d), steps)
        if not li.full and not li.partial:
            return UNK
        if li.mutb or li.partial:
            return self._mut(fr, local, blk, idx, steps)
        if li.allconst is not None:
            return self.apply(mk("loc", fr, local), steps)
        rd = D.reaching(local, blk, idx)
        if len(rd) > 1 and body.lty(local)["k"] == "bool" and any(a is not None and a.k in ("c", "agg") for a in fr.args):
            live = self.alive(fr)
            rd = [d for d in rd if d[0] in live] or rd
        if len(rd) == 1:
            return self.apply(self.defval(fr, rd[0]), steps)
        if not steps:
            x = self.counted(fr, local, blk)
            if x is not None:
                return mk("idx", x)
        return self.apply(mk("phi", fr, local, blk, idx), steps)

    def alive(self, fr):
        """blocks that can run when the arguments of this frame decide a branch"""
        r = fr.cache.get("alive")
        if r is None:
            body, D = fr.body, self.defs(fr.body)

            def ofarg(o):
                # a field of an argument, read directly: its value needs no other branch
                p = o.get("c") or o.get("m")
                if not p or any(e[0] == "i" for e in p[1]):
                    return False
                if 1 <= p[0] <= body.argc:
                    return True
                full = D.info[p[0]].full
                if len(full) != 1 or full[0][2] != "s" or p[1]:
                    return False
                rv = body.blocks[full[0][0]]["s"][full[0][1]][2]
                return rv[0] == "use" and ofarg(rv[1])
            r, st = {0}, [0]
            while st:
                b = st.pop()
                t = body.blocks[b]["t"]
                nx = body.succ(b)
                if t[1] == "switch" and ofarg(t[2]):
                    v = self.operand(fr, b, len(body.blocks[b]["s"]), t[2])
                    if v.k == "c" and type(v.a[1]) is int:
                        nx = [next((y for x, y in t[3] if x == v.a[1]), t[4])]
                for y in nx:
                    if y not in r:
                        r.add(y)
                        st.append(y)
            fr.cache["alive"] = r
        return r

    def counter(self, body, local):
        """(guard block, first block of the turn, operand of the limit) when local starts at 0, grows by 1 once and is only good while it is below a limit"""
        c = body.cache.setdefault("counter", {})
        if local in c:
            return c[local]
        c[local] = None
        full = self.defs(body).info[local].full
        if len(full) != 2 or any(d[2] != "s" for d in full):
            return None
        zero = step = None
        for d in full:
            r = body.blocks[d[0]]["s"][d[1]][2]
            k = r[1].get("k") if r[0] == "use" and isinstance(r[1], dict) else None
            if isinstance(k, dict) and k.get("i") == 0:
                zero = d
                continue
            if r[0] == "use":
                q = r[1].get("m") or r[1].get("c")
                dd = self.defs(body).info[q[0]].full if q else ()
                r = body.blocks[dd[0][0]]["s"][dd[0][1]][2] if len(dd) == 1 and dd[0][2] == "s" else r
            if r[0] == "bin" and r[1].startswith("Add") and isinstance(r[3], dict) and isinstance(r[3].get("k"), dict) and r[3]["k"].get("i") == 1 \
                    and (r[2].get("c") or r[2].get("m")) == [local, []]:
                step = d
        if zero is None or step is None:
            return None
        for g in sorted(body.reach()):
            t = body.blocks[g]["t"]
            o = (t[2].get("m") or t[2].get("c")) if t[1] == "switch" else None
            if not o or o[1] or len(t[3]) != 1 or str(t[3][0][0]) != "0":
                continue
            for n, s in enumerate(body.blocks[g]["s"]):
                if len(s) > 2 and s[1] == o and s[2][0] == "bin" and s[2][1] == "Lt":
                    x = s[2][2].get("m") or s[2][2].get("c")
                    if x and not x[1] and x[0] != local:
                        dd = self.defs(body).info[x[0]].full
                        r = body.blocks[dd[0][0]]["s"][dd[0][1]][2] if len(dd) == 1 and dd[0][2] == "s" else ("",)
                        x = (r[1].get("m") or r[1].get("c")) if r[0] == "use" else x
                    if x == [local, []] and t[4] not in (t[3][0][1],):
                        c[local] = (g, t[4], n, s[2][3])
                        return c[local]
        return None

    def guards(self, body):
        """branches that end a counted loop over a sequence: block -> counter"""
        c = body.cache.get("guards")
        if c is None:
            c = body.cache["guards"] = {}
            for l, li in enumerate(self.defs(body).info):
                if len(li.full) != 2 or l <= body.argc or not re.fullmatch(r"[iu](8|16|32|64|size)", body.lty(l)["s"]):
                    continue
                k = self.counter(body, l)
                q = (k[3].get("m") or k[3].get("c")) if k and isinstance(k[3], dict) else None
                for _ in range(4):
                    dd = self.defs(body).info[q[0]].full if q and not q[1] else ()
                    if len(dd) != 1:
                        break
                    if dd[0][2] != "s":
                        if (mir.callee(body.blocks[dd[0][0]]["t"]) or "").endswith("::len"):
                            c[k[0]] = l
                        break
                    r = body.blocks[dd[0][0]]["s"][dd[0][1]][2]
                    if r[0] == "len" or r[0] == "un" and "Metadata" in str(r[1]):
                        c[k[0]] = l
                    q = (r[1].get("m") or r[1].get("c")) if r[0] == "use" else None
        return c

    def counted(self, fr, local, blk):
        """the sequence whose positions a counter runs through"""
        body = fr.body
        k = self.counter(body, local)
        if k is None:
            return None
        g, first, n, lim = k
        if not body.dominates(first, blk):
            return None
        key = ("lim", local)
        if key not in fr.cache:
            fr.cache[key] = None
            fr.cache[key] = self.operand(fr, g, n, lim)
        v = fr.cache[key]
        if v is not None and v.k == "ext" and v.a[0].endswith("::len") and len(v.a[1]) == 1 and "str" not in v.a[0].lower():
            return v.a[1][0]
        return None

    def _mut(self, fr, local, blk, idx, steps):
        body = fr.body
        D = self.defs(body)
        t = body.lty(local)
        while t["k"] == "ref":
            t = body.ty(t["a"][0])
        if self.is_iter(t) and len(D.info[local].full) == 1:
            return self.apply(self.defval(fr, D.info[local].full[0]), steps)
        return self.apply(mk("buf", fr, local, blk, idx), steps)

    def is_iter(self, t):
        return t["k"] == "adt" and (("::iter::" in t["d"]) or t["d"].endswith("IntoIter") or "::Iter" in t["d"]
                                    or t["d"].startswith("core::ops::range::Range")
                                    or "into_iter" in t["d"])

    def defval(self, fr, d):
        key = ("dv", d)
        c = fr.cache.get(key)
        if c is not None:
            return c
        fr.cache[key] = UNK     # cycles resolve to unknown
        blk, idx, kind = d
        body = fr.body
        if kind == "s":
            v = self.rvalue(fr, blk, idx, body.blocks[blk]["s"][idx][2])
        else:
            v = self.callval(fr, blk)
        fr.cache[key] = v
        return v

    def bufid(self, fr, blk, idx, p):
        """(local, path) of the storage a place denotes, seen from fr"""
        local, projs = p
        body = fr.body
        t = body.lty(local)
        path = tuple((s[1], s[2]) if s[0] == "f" else s for s in self.projlist(fr, blk, idx, projs))
        if t["k"] == "ref" and not (1 <= local <= body.argc):
            D = self.defs(body)
            li = D.info[local]
            if len(li.full) == 1:
                v = self.defval(fr, li.full[0])
                if v.k == "mref":
                    return mk("mref", v.a[0], v.a[1], v.a[2] + path)
                if v.k == "mrefup":
                    return mk("mref", fr, 1, (("", "up%d" % v.a[0]),) + path)
                return None
        if t["k"] == "closure_upvar":
            return None
        return mk("mref", fr, local, path)

    def rvalue(self, fr, blk, idx, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, blk, idx, r[1])
        if k == "ref":
            if r[1] == 1:
                m = self.bufid(fr, blk, idx, r[2])
                if m is not None:
                    return m
            return self.place(fr, blk, idx, r[2])
        if k == "cast":
            v = self.operand(fr, blk, idx, r[2])
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Transmute", "Subtype"):
                return v
            t = fr.body.ty(r[3])
            return mk("cast", t["s"], v)
        if k == "bin":
            a = self.operand(fr, blk, idx, r[2])
            b = self.operand(fr, blk, idx, r[3])
            op = r[1]
            if op.endswith("WithOverflow"):
                return mk("agg", "tuple", "", (self.binop(op[:-12], a, b), UNK))
            return self.binop(op, a, b)
        if k == "un":
            a = self.operand(fr, blk, idx, r[2])
            if r[1] == "Not" and a.k == "c" and a.a[0] == "bool":
                return mk("c", "bool", 1 - a.a[1])
            if r[1] == "PtrMetadata":
                return mk("ext", "len", (a,), ())
            return mk("un", r[1], a)
        if k == "discr":
            return self.discr(self.place(fr, blk, idx, r[1]), fr.body.crate)
        if k == "agg":
            h = r[1]
            vs = tuple(self.operand(fr, blk, idx, o) for o in r[2])
            if h[0] in ("array", "tuple"):
                return mk("agg", h[0], "", vs)
            if h[0] == "adt":
                return mk("agg", self.P.resolve_id(fr.body.crate, h[1]), h[3] if self.is_enum(h[1], fr.body.crate) else "", vs)
            if h[0] == "closure":
                return mk("clo", self.P.resolve_id(fr.body.crate, h[1]), vs)
            return UNK
        if k == "repeat":
            return mk("ext", "from_elem", (self.operand(fr, blk, idx, r[1]),), ())
        return UNK

    def is_enum(self, d, crate):
        a = self.P.adts[crate].get(d)
        return bool(a and a["enum"])

    def binop(self, op, a, b):
        if a.k == "c" and b.k == "c" and a.a[0] in ("int", "char", "bool") and b.a[0] in ("int", "char", "bool"):
            x, y = a.a[1], b.a[1]
            if isinstance(x, str):
                x = ord(x)
            if isinstance(y, str):
                y = ord(y)
            try:
                x, y = int(x), int(y)
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Eq": int(x == y), "Ne": int(x != y), "Lt": int(x < y),
                     "Le": int(x <= y), "Gt": int(x > y), "Ge": int(x >= y), "BitAnd": x & y, "BitOr": x | y}.get(op)
                if op in ("Div", "Rem") and y:
                    r = x // y if op == "Div" else x % y
                if r is not None:
                    return mk("c", "bool" if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or a.a[0] == "bool" else "int", r)
            except (ValueError, TypeError):
                pass
        return mk("bin", op, a, b)

    def discr(self, v, crate):
        v = self.inl(v)
        if v.k == "agg" and v.a[1]:
            adt = self.P.adts["ppt_rs"].get(v.a[0]) or self.P.adts[crate].get(v.a[0])
            if adt:
                for x in adt["v"]:
                    if x["n"] == v.a[1]:
                        return mk("c", "int", x["d"])
        return mk("discr", v)

    # -- calls
    def callval(self, fr, blk):
        body = fr.body
        t = body.blocks[blk]["t"]
        n = len(body.blocks[blk]["s"])
        args = tuple(self.operand(fr, blk, n, a) for a in t[3])
        k = mir.fninfo(t)
        rt = body.ty(body.locals[t[4][0]]) if not t[4][1] else None
        if k is None:
            f = self.operand(fr, blk, n, t[2])
            return self.call_value(f, args, (fr, blk))
        name = self.P.resolve_id(body.crate, k.get("res") or k["fn"])
        tys = tuple(body.ty(x)["s"] for x in k.get("a", []))
        if k.get("fn", "").startswith("core::ops::function::Fn") and args:
            inner = args[1] if len(args) > 1 else mk("agg", "tuple", "", ())
            ia = inner.a[2] if inner.k == "agg" else (inner,)
            return self.call_value(args[0], ia, (fr, blk))
        return self.app(name, k["fn"], args, tys, (fr, blk), k)

    def call_value(self, f, args, site):
        """apply a closure / fn item / unknown callable"""
        if f.k == "clo":
            b = self.P.body(f.a[0])
            if b:
                return self.mkapp(b, (f,) + tuple(args))
            return UNK
        if f.k == "fn":
            if f.a[1].endswith("::{constructor#0}") or self.ctor(f.a[0]):
                c = self.ctor(f.a[0])
                if c:
                    return mk("agg", c[0], c[1], tuple(args))
            return self.app(f.a[0], f.a[1], tuple(args), f.a[2], site, None)
        return mk("ext", "call?", (f,) + tuple(args), ())

    def ctor(self, name):
        """enum variant / tuple struct constructor used as a function"""
        if not hasattr(self, "_ctors"):
            self._ctors = {"core::option::Option::Some": ("core::option::Option", "Some"),
                           "core::result::Result::Ok": ("core::result::Result", "Ok"),
                           "core::result::Result::Err": ("core::result::Result", "Err")}
            for d, a in self.P.adts["ppt_rs"].items():
                for x in a["v"]:
                    if a["enum"]:
                        self._ctors[d + "::" + x["n"]] = (d, x["n"])
                    elif a["local"] and x["f"] and x["f"][0][0] == "0":
                        self._ctors[d] = (d, "")
        import re
        n = re.sub(r"::<[^<>]*>", "", name)
        return self._ctors.get(n)

    def mkapp(self, b, args):
        args = tuple(args[:b.argc]) + (None,) * max(0, b.argc - len(args))
        args = tuple(UNK if (a is not None and a.depth > 60) else a for a in args)
        return mk("app", frame(b, args))

    def app(self, name, gname, args, tys, site, k):
        P = self.P
        b = P.body(name)
        if b is None and name.startswith("crate::"):
            c = self.ctor(name)
            if c:
                return mk("agg", c[0], c[1], args)
        if b is not None and not (b.intrait and not b.trait and k and k.get("rk") == "Virtual"):
            if b.derived and b.trait == "core::clone::Clone":
                return args[0]
            return self.mkapp(b, args)
        imps = self.dispatch(name, gname, k)
        if imps:
            return mk("virt", tuple(imps), args)
        if name.endswith("core::default::Default>::default"):
            d = self.std_default(name)
            if d is not None:
                return d
        if name == "alloc::boxed::box_assume_init_into_vec_unsafe":
            v = self.boxed_array(site)
            return v if v is not None else UNK
        if is_transparent(name) or (gname in TRANSPARENT):
            if name == "core::mem::take" or name.endswith("Option::<T>::take"):
                a = args[0]
                if a.k == "mref":
                    fr, blk = site
                    return self.apply(mk("buf", a.a[0], a.a[1], blk, len(fr.body.blocks[blk]["s"])) if a.a[0] is fr
                                      else mk("ext", name, args, tys),
                                      [("f",) + tuple(x) for x in a.a[2] if len(x) == 2])
            if args:
                a = args[0]
                if a.k == "mref" and a.a[0] is site[0]:
                    return a
                return a
        if name.endswith(("OnceLock::<T>::get_or_init", "OnceCell::<T>::get_or_init", "LazyLock::<T, F>::force",
                          "LazyLock<T, F> as core::ops::deref::Deref>::deref")) and len(args) > 1:
            return self.call_value(args[1], (), site)
        if name.endswith("::index") and len(args) == 2 and args[1] is not None and args[1].k == "idx" and args[1].a[0] is args[0]:
            return self.elem(args[0])
        # volatile result when it can depend on mutation
        if any(a is not None and a.k == "mref" for a in args) and not name.endswith("::next"):
            return mk("ext", name, args, tys, site)
        return mk("ext", name, args, tys)

    def position(self, v):
        """0..x.len() counts the positions of x"""
        a = v.a[2] if len(v.a) > 2 else ()
        if v.a[0] == "core::ops::range::Range" and len(a) == 2 and a[0].k == "c" and str(a[0].a[1]) == "0" and a[1].k == "ext" \
                and a[1].a[0].endswith("::len") and len(a[1].a[1]) == 1 and "str" not in a[1].a[0].lower():
            return mk("idx", a[1].a[1][0])
        return None

    def dispatch(self, name, gname, k):
        """implementations a genuinely unresolved / virtual call of a crate trait may reach"""
        if not gname or not (gname.startswith("crate::") or "crate::" in gname or gname.startswith("ppt_rs::")):
            return []
        if k is not None and k.get("res") and k.get("rk") != "Virtual":
            return []
        return self.P.impls(gname)

    def std_default(self, name):
        t = name[1:].split(" as ")[0]
        if t.startswith("core::option::Option"):
            return mk("agg", "core::option::Option", "None", ())
        if t.startswith("alloc::string::String"):
            return S("")
        if t.startswith("alloc::vec::Vec"):
            return mk("agg", "array", "", ())
        if t == "bool":
            return mk("c", "bool", 0)
        if t in ("f32", "f64"):
            return mk("c", "float", "0.0")
        if re.fullmatch(r"[ui](8|16|32|64|128|size)", t):
            return mk("c", "int", 0)
        return None

    def boxed_array(self, site):
        """vec![..]: the array stored through the raw pointer of the box passed to into_vec"""
        fr, blk = site
        body = fr.body
        D = self.defs(body)
        o = body.blocks[blk]["t"][3][0]
        l = (o.get("m") or o.get("c"))[0]
        for _ in range(6):
            fd = D.info[l].full
            if len(fd) == 1 and fd[0][2] == "s":
                r = body.blocks[fd[0][0]]["s"][fd[0][1]][2]
                if r[0] == "use" and ("m" in r[1] or "c" in r[1]):
                    l = (r[1].get("m") or r[1].get("c"))[0]
                    continue
            break
        for x, li in enumerate(D.info):
            for (bi, si, k) in li.full:
                if k != "s":
                    continue
                r = body.blocks[bi]["s"][si][2]
                if r[0] == "cast" and r[1] == "BoxDerefTransmute":
                    q = r[2].get("c") or r[2].get("m")
                    if q and q[0] == l:
                        for (b2, s2, k2) in li.partial:
                            if k2 == "s":
                                return self.rvalue(fr, b2, s2, body.blocks[b2]["s"][s2][2])
        return None

    # -- structure of values
    def inl(self, v):
        """application of a function that builds its result in one place -> that result (else v)"""
        n = 0
        while v.k == "app" and n < 12:
            n += 1
            f = v.a[0]
            c = f.cache.get("inl")
            if c is None:
                f.cache["inl"] = v
                c = v
                D = self.defs(f.body)
                li = D.info[0]
                if len(li.full) == 1 and not li.partial and not li.mutb:
                    x = self.defval(f, li.full[0])
                    if x.k in ("agg", "app", "clo", "c", "arg") or (x.k in ("f", "elem") and self.simple(x)):
                        c = x
                f.cache["inl"] = c
            if c is v:
                return v
            v = c
        return v

    def predval(self, v):
        """result of a straight-line predicate (a comparison, a field, a call) in terms of its arguments"""
        f = v.a[0]
        c = f.cache.get("pv", 0)
        if c == 0:
            c = None
            f.cache["pv"] = None
            li = self.defs(f.body).info[0]
            if len(li.full) == 1 and not li.partial and not li.mutb:
                x = self.defval(f, li.full[0])
                if x.k in ("bin", "un", "ext", "app", "f", "discr", "c") and x is not v:
                    c = x
            f.cache["pv"] = c
        return c

    def app_field(self, v, variant, field, ty):
        """field of the result of a builder-style function: the result local starts as one whole value and individual
        fields are overwritten on every path; None when that is not the shape"""
        f = v.a[0]
        ck = ("af", variant, field)
        if ck in f.cache:
            return f.cache[ck]
        f.cache[ck] = None
        r = self._app_field(f, variant, field, ty)
        f.cache[ck] = r
        return r

    def _app_field(self, f, variant, field, ty):
        body = f.body
        D = self.defs(body)
        li = D.info[0]
        l, n = 0, 0
        while n < 6:
            n += 1
            if l <= body.argc and l > 0 and not D.info[l].full:
                break
            li = D.info[l]
            if len(li.full) != 1 or li.full[0][2] != "s":
                if len(li.full) == 1 and l != 0:
                    break
                return None
            if li.partial or li.mutb:
                break
            d = li.full[0]
            r = body.blocks[d[0]]["s"][d[1]][2]
            if r[0] == "use" and "m" in r[1] and not r[1]["m"][1]:
                l = r[1]["m"][0]
                continue
            return None
        li = D.info[l]
        if l == 0 or li.mutb:
            return None
        hit = []
        for (b, i, k) in li.partial:
            p = body.blocks[b]["s"][i][1] if k == "s" else body.blocks[b]["t"][4]
            steps = self.projlist(f, b, i, p[1])
            if not steps or steps[0][0] != "f":
                return None
            if steps[0][2] == field:
                if len(steps) > 1:
                    return None
                hit.append((b, i, k))
        if not hit:
            if 1 <= l <= body.argc:
                base = f.args[l - 1]
            else:
                base = self.defval(f, li.full[0])
            return self.project(base, variant, field, ty) if base is not None else None
        if len(hit) == 1:
            b, i, k = hit[0]
            rets = [x for x in body.reach() if body.blocks[x]["t"][1] == "ret"]
            if rets and all(body.dominates(b, x) for x in rets):
                return self.rvalue(f, b, i, body.blocks[b]["s"][i][2]) if k == "s" else self.callval(f, b)
        return None

    def vecelems(self, v, depth=0):
        """every value that can be an element of the Vec `v` (an application or a local buffer), or None"""
        if depth > 6:
            return None
        if v.k == "app":
            x = self.inl(v)
            if x is not v:
                return self.vecelems(x, depth + 1)
            f, l = v.a[0], 0
        elif v.k in ("buf", "phi"):
            f, l = v.a[0], v.a[1]
        elif v.k == "agg" and v.a[0] == "array":
            return v.a[2]
        elif v.k == "ext":
            s = v.a[0].split("::")[-1]
            if s in ("new", "with_capacity", "default") and "Vec" in v.a[0]:
                return ()
            e = self.elem(v)
            if e.k == "elem" and e.a[0] is v:
                return None
            return (e,)
        elif v.k == "optalt":
            x, y = self.vecelems(v.a[1], depth + 1), self.vecelems(v.a[2], depth + 1)
            return None if x is None or y is None else x + y
        elif v.k == "elem":
            x = self.vecelems(v.a[0], depth + 1)
            if x is None:
                return None
            out = []
            for y in x:
                z = self.vecelems(y, depth + 1)
                if z is None:
                    return None
                out += z
            return tuple(dict.fromkeys(out))
        else:
            return None
        ck = ("ve", l)
        if ck in f.cache:
            return f.cache[ck]
        f.cache[ck] = None
        r = self._vecelems(f, l, depth)
        f.cache[ck] = r
        return r

    def _vecelems(self, f, l, depth):
        body = f.body
        D = self.defs(body)
        if 1 <= l <= body.argc and not D.info[l].full:
            return None
        out = []
        li = D.info[l]
        if li.partial:
            return None
        for (b, i, k) in li.full:
            if k == "s":
                r = body.blocks[b]["s"][i][2]
                src = r[1].get("m") or r[1].get("c") if r[0] == "use" else None
                if src and not src[1]:
                    x = self._vecelems(f, src[0], depth + 1)
                else:
                    x = self.vecelems(self.rvalue(f, b, i, r), depth + 1)
            else:
                x = self.vecelems(self.callval(f, b), depth + 1)
            if x is None:
                return None
            out += x
        if li.mutb:
            more = self._pushed(f, {body.blocks[b]["s"][i][1][0] for (b, i, k) in li.mutb}, depth)
            if more is None:
                return None
            out += more
        return tuple(dict.fromkeys(out))

    def _pushed(self, f, refs, depth):
        """values added to a Vec through the reference locals `refs` of frame f"""
        body = f.body
        D = self.defs(body)
        refs, out = set(refs), []
        if depth > 6:
            return None
        ch = True
        while ch:
            ch = False
            for x, lx in enumerate(D.info):
                for (b, i, k) in lx.full:
                    if k == "s":
                        r = body.blocks[b]["s"][i][2]
                        q = r[2][0] if r[0] == "ref" else ((r[1].get("m") or r[1].get("c") or [None])[0] if r[0] == "use" else None)
                        if q in refs and x not in refs:
                            refs.add(x)
                            ch = True
        for b, t in body.calls():
            for ai, a in enumerate(t[3]):
                p = a.get("m") or a.get("c")
                if p and p[0] in refs:
                    n = len(body.blocks[b]["s"])
                    s = (mir.callee(t) or "").split("::")[-1]
                    cb = self.P.body(self.P.resolve_id(body.crate, mir.callee(t))) if body.crate else None
                    if cb is not None:
                        if cb is body or cb.kind == "closure" or not cb.lty(ai + 1)["s"].startswith("&mut "):
                            return None
                        x = self._pushed(frame(cb, tuple(self.operand(f, b, n, y) for y in t[3])), {ai + 1}, depth + 1)
                        if x is None:
                            return None
                        out += x
                    elif s == "push":
                        x = self.operand(f, b, n, t[3][1])
                        at = self.pushes.setdefault(x, [])
                        if (f, b) not in at:
                            at.append((f, b))
                        out.append(x)
                    elif s == "insert" and len(t[3]) == 3:
                        out.append(self.operand(f, b, n, t[3][2]))
                    elif s in ("extend", "extend_from_slice", "append"):
                        out.append(self.elem(self.operand(f, b, n, t[3][1])))
                    elif s in ("clear", "truncate", "pop", "sort", "sort_by", "sort_by_key", "dedup", "retain", "reverse", "reserve",
                               "deref_mut", "into_iter", "drain"):
                        pass
                    else:
                        return None
        return out

    def simple(self, v):
        while v.k in ("f", "elem"):
            v = v.a[0]
        return v.k in ("arg", "app", "agg", "elem")

    def project(self, v, variant, field, ty=""):
        k = v.k
        if k == "app":
            x = self.inl(v)
            if x is not v and x.k in ("agg", "app", "f", "arg", "elem"):
                return self.project(x, variant, field, ty)
            x = self.app_field(v, variant, field, ty)
            if x is not None:
                return x
        if k == "pick":
            xs = tuple(self.project(x, variant, field, ty) for x in v.a[1])
            return self.pick(v.a[0], xs)
        if k == "agg":
            if variant and v.a[1] and v.a[1] != variant:
                return DEAD
            vals = v.a[2]
            i = self.field_index(v.a[0], variant or v.a[1], field)
            if i is not None and i < len(vals):
                return vals[i]
            return UNK
        if k == "clo":
            if field.startswith("up"):
                i = int(field[2:])
                return v.a[1][i] if i < len(v.a[1]) else UNK
        if k == "mref":
            return mk("mref", v.a[0], v.a[1], v.a[2] + ((variant, field),))
        if variant in ("Some", "Ok") and field == "0":
            p = self.payload(v)
            if p is not None:
                return p
        if variant == "Continue" and field == "0" and k == "ext" and v.a[0].endswith("::branch"):
            a = v.a[1][0]
            p = self.payload(a)
            if p is not None:
                return p
            return mk("f", a, "Some" if "option::Option" in v.a[0] else "Ok", "0", ty)
        if k == "ext" and v.a[0].endswith("Iterator>::next"):
            return UNK
        if k == "optalt":
            x = self.project(v.a[1], variant, field, ty)
            y = self.project(v.a[2], variant, field, ty)
            if x is DEAD:
                return y
            if y is DEAD:
                return x
            return mk("optalt", v.a[0], x, y)
        if k == "alt":
            xs = tuple(y for y in (self.project(x, variant, field, ty) for x in v.a[0]) if y is not DEAD)
            return mk("alt", xs) if len(xs) > 1 else (xs[0] if xs else DEAD)
        if k == "dead":
            return DEAD
        if k == "?":
            return mk("f", v, variant, field, ty)
        return mk("f", v, variant, field, ty)

    def pick(self, key, xs):
        if all(x is xs[0] for x in xs):
            return xs[0]
        return mk("pick", key, xs)

    def field_index(self, adt, variant, field):
        if adt in ("tuple", "array"):
            return int(field) if field.isdigit() else None
        a = self.P.adts["ppt_rs"].get(adt) or self.P.adts.get("pptcli", {}).get(adt)
        if a:
            for x in a["v"]:
                if (not a["enum"]) or x["n"] == variant:
                    for i, f in enumerate(x["f"]):
                        if f[0] == field:
                            return i
        return int(field) if field.isdigit() else None

    def payload(self, v):
        """the value inside Some/Ok of v, when v is built by combinators"""
        if v.k == "agg":
            return v.a[2][0] if v.a[1] in ("Some", "Ok") and v.a[2] else DEAD
        if v.k == "optalt":
            return self.project(v, "Some", "0") if False else mk("optalt", v.a[0], self.pay(v.a[1]), self.pay(v.a[2])) \
                if self.pay(v.a[1]) is not DEAD and self.pay(v.a[2]) is not DEAD else \
                (self.pay(v.a[2]) if self.pay(v.a[1]) is DEAD else self.pay(v.a[1]))
        if v.k != "ext":
            return None
        n, a = v.a[0], v.a[1]
        s = n.split("::")[-1]
        if "Option" in n or "Result" in n:
            if s == "map":
                return self.call_value(a[1], (self.pay(a[0]),), None)
            if s == "and_then":
                return self.pay(self.call_value(a[1], (self.pay(a[0]),), None))
            if s in ("filter", "as_ref", "as_deref", "as_mut", "cloned", "copied", "ok", "take", "ok_or", "ok_or_else",
                     "map_err", "as_deref_mut", "inspect"):
                return self.pay(a[0])
            if s == "or":
                return mk("optalt", a[0], self.pay(a[0]), self.pay(a[1]))
            if s == "or_else":
                return mk("optalt", a[0], self.pay(a[0]), self.pay(self.call_value(a[1], (), None)))
            if s == "zip":
                return mk("agg", "tuple", "", (self.pay(a[0]), self.pay(a[1])))
        if s == "next" or s == "next_back":
            if not a:
                return UNK
            arr = self.litarray(a[0]) if s == "next" else None
            if arr is not None:
                return self.pick(v, arr)
            return self.elem(a[0])
        if s in ("first", "last", "get", "first_mut", "last_mut", "get_mut", "peek", "nth", "last", "max", "min", "find",
                 "pop") and a:
            return self.elem(a[0])
        if s in ("strip_prefix", "strip_suffix"):
            return mk("ext", "derived", (a[0],), ())
        if s in ("split_once", "rsplit_once"):
            d = mk("ext", "derived", (a[0],), ())
            return mk("agg", "tuple", "", (d, d))
        return None

    def litarray(self, v):
        """elements, in order, of the literal array an iterator walks (None when not literal / too long)"""
        for _ in range(12):
            if v.k == "mref":
                fr = v.a[0]
                li = self.defs(fr.body).info[v.a[1]]
                if v.a[2] or len(li.full) != 1 or not self.is_iter(fr.body.lty(v.a[1])):
                    return None
                v = self.defval(fr, li.full[0])
                continue
            if v.k == "ext" and v.a[1] and v.a[0].split("::")[-1] in ("iter", "into_iter", "cloned", "copied", "as_slice", "by_ref"):
                v = v.a[1][0]
                continue
            if v.k == "app":
                x = self.inl(v)
                if x is v:
                    return None
                v = x
                continue
            if v.k == "ext" and v.a[0].split("::")[-1] == "enumerate" and "terator" in v.a[0]:
                xs = self.litarray(v.a[1][0])
                if xs is None:
                    return None
                return tuple(mk("agg", "tuple", "", (mk("c", "int", i), x)) for i, x in enumerate(xs))
            break
        if v.k == "agg" and v.a[0] == "array" and len(v.a[2]) <= 16:
            return v.a[2]
        return None

    def pay(self, v):
        p = self.payload(v)
        return p if p is not None else self.project(v, "Some", "0")

    def filters(self, v, d=0):
        """[(predicate closure, its argument)] that every element of an iterator / collection value satisfies"""
        if d > 20:
            return []
        if v.k == "mref":
            fr = v.a[0]
            li = self.defs(fr.body).info[v.a[1]]
            if not v.a[2] and len(li.full) == 1 and self.is_iter(fr.body.lty(v.a[1])):
                return self.filters(self.defval(fr, li.full[0]), d + 1)
            return []
        if v.k == "app":
            x = self.inl(v)
            if x is v:
                x = self.predval(v)
            return self.filters(x, d + 1) if x is not None and x is not v else []
        if v.k == "ext" and v.a[1]:
            n, a = v.a[0], v.a[1]
            s = n.split("::")[-1]
            if s == "filter" and "Option" not in n and len(a) > 1:
                return self.filters(a[0], d + 1) + [(a[1], self.elem(a[0]))]
            if s in ("iter", "into_iter", "cloned", "copied", "rev", "skip", "take", "peekable", "iter_mut", "by_ref", "step_by", "fuse",
                     "inspect", "collect", "to_vec", "clone", "as_slice", "enumerate", "index", "deref", "as_ref") \
                    or s in ("map", "filter_map") and "Option" not in n:
                return self.filters(a[0], d + 1)
        return []

    def elem(self, v):
        """an arbitrary element of an iterator / collection value"""
        if v.k == "mref":
            fr = v.a[0]
            D = self.defs(fr.body)
            li = D.info[v.a[1]]
            if not v.a[2] and len(li.full) == 1:
                t = fr.body.lty(v.a[1])
                if self.is_iter(t):
                    return self.elem(self.defval(fr, li.full[0]))
            return mk("elem", v)
        if v.k == "agg" and v.a[0] == "array":
            xs = tuple(dict.fromkeys(v.a[2]))
            if len(xs) == 1:
                return xs[0]
            if not xs:
                return DEAD
            return mk("alt", xs)
        if v.k == "app":
            x = self.inl(v)
            if x is not v:
                return self.elem(x)
        if v.k == "agg" and "Range" in str(v.a[0]):
            return self.position(v) or mk("idx", v)
        if v.k == "ext":
            n, a = v.a[0], v.a[1]
            s = n.split("::")[-1]
            if s in ("iter", "into_iter", "cloned", "copied", "rev", "skip", "take", "peekable", "filter", "iter_mut",
                     "by_ref", "skip_while", "take_while", "step_by", "fuse", "inspect", "collect", "to_vec", "clone",
                     "as_slice", "drain", "cycle", "dedup") and a:
                e = self.elem(a[0])
                if e.k == "chr" and s in ("take", "skip", "skip_while", "take_while", "step_by", "rev"):
                    return mk("chr", mk("ext", "sliced", (e.a[0],), ()))
                return e
            if s == "index" and a:
                return self.elem(a[0])
            if s == "map" and len(a) > 1 and "Option" not in n:
                return self.call_value(a[1], (self.elem(a[0]),), None)
            if s == "filter_map" and len(a) > 1:
                return self.pay(self.call_value(a[1], (self.elem(a[0]),), None))
            if s == "flat_map" and len(a) > 1:
                return self.elem(self.call_value(a[1], (self.elem(a[0]),), None))
            if s == "flatten":
                return self.elem(self.elem(a[0]))
            if s == "enumerate":
                return mk("agg", "tuple", "", (mk("idx", a[0]), self.elem(a[0])))
            if s == "zip":
                return mk("agg", "tuple", "", (self.elem(a[0]), self.elem(a[1])))
            if s == "chain":
                return mk("alt", (self.elem(a[0]), self.elem(a[1])))
            if s in ("chars", "bytes"):
                return mk("chr", a[0])
            if s == "char_indices":
                return mk("agg", "tuple", "", (mk("idx", a[0]), mk("chr", a[0])))
            if s in ("lines", "split", "split_whitespace", "rsplit", "splitn", "split_terminator"):
                safe = s in ("lines", "split_whitespace") or len(a) > 1 and a[-1].k == "c" and not set(str(a[-1].a[1])) & set("&#;") \
                    and not str(a[-1].a[1]).isalnum()
                return mk("ext", "derived" if safe else "sliced", (a[0],), ())
            if s == "new" and "RangeInclusive" in n:
                return mk("idx", v)
            if s == "from_elem":
                return a[0]
            if s == "repeat_n" or s == "repeat":
                return a[0]
        if v.k == "optalt":
            return mk("optalt", v.a[0], self.elem(v.a[1]), self.elem(v.a[2]))
        if v.k in ("dead",):
            return DEAD
        return mk("elem", v)


class LocalInfo:
    __slots__ = ("full", "partial", "mutb", "allconst", "uses")

    def __init__(self):
        self.full, self.partial, self.mutb, self.allconst, self.uses = [], [], [], None, []


class DefIndex:
    """definitions, partial writes and mutable borrows of every local"""

    def __init__(self, body):
        self.body = body
        self.info = [LocalInfo() for _ in body.locals]
        self._rd = {}
        for bi in sorted(body.reach()):
            blk = body.blocks[bi]
            if blk.get("cl"):
                continue
            for si, s in enumerate(blk["s"]):
                p, r = s[1], s[2]
                if r[0] == "dead":
                    continue
                d = (bi, si, "s")
                if not p[1]:
                    self.info[p[0]].full.append(d)
                else:
                    self.info[p[0]].partial.append(d)
                if r[0] == "ref" and r[1] == 1:
                    q = r[2]
                    # borrowing through a reference local borrows its pointee, not the local
                    t = body.lty(q[0])
                    if t["k"] == "ref" and q[1] and q[1][0][0] == "*":
                        if 1 <= q[0] <= body.argc:
                            self.info[q[0]].mutb.append(d)
                    else:
                        self.info[q[0]].mutb.append(d)
            t = blk["t"]
            if t[1] == "call":
                p = t[4]
                d = (bi, len(blk["s"]), "c")
                if not p[1]:
                    self.info[p[0]].full.append(d)
                else:
                    self.info[p[0]].partial.append(d)
        for l, li in enumerate(self.info):
            if len(li.full) > 1 and not li.partial and not li.mutb and body.lty(l)["k"] in ("bool",):
                ok = True
                for (bi, si, k) in li.full:
                    if k != "s" or not self._isconst(body.blocks[bi]["s"][si][2]):
                        ok = False
                        break
                if ok:
                    li.allconst = True
        # a partially initialised local assigned through box/deref of a temp is not interesting

    @staticmethod
    def _isconst(r):
        return r[0] == "use" and "k" in r[1] and isinstance(r[1]["k"], dict) and ("b" in r[1]["k"] or "i" in r[1]["k"])

    def reaching(self, local, blk, idx):
        """full definitions of local that may reach (blk, before statement idx)"""
        key = (local, blk, idx)
        if key in self._rd:
            return self._rd[key]
        body = self.body
        byblk = {}
        for d in self.info[local].full:
            byblk.setdefault(d[0], []).append(d)
        out, seen = [], set()

        def last(b, lim):
            c = [d for d in byblk.get(b, []) if d[1] < lim]
            return max(c, key=lambda d: d[1]) if c else None

        d = last(blk, idx)
        if d:
            out = [d]
        else:
            st = list(body.pred(blk))
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                d = last(b, 1 << 30)
                if d:
                    if d not in out:
                        out.append(d)
                else:
                    st.extend(body.pred(b))
        out.sort()
        self._rd[key] = out
        return out

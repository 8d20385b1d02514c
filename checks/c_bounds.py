"""P21 odd input never panics: text cuts at character boundaries, list positions in range, divisors, differences, unwraps."""
import re
import mir
import bounds
from bounds import atoms, sub, add, K
IDS = ["P21"]

KIND = {"cut": "cuts of texts and lists", "idx": "list positions", "lim": "positions of insertions and removals", "div": "divisions",
        "unw": "unwraps", "sub": "differences of sizes"}
TEXTCUT = ("insert_str", "replace_range", "split_at", "split_off", "drain", "remove", "insert", "swap_remove")
SEARCH = {"find", "rfind", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "first", "last", "pop", "next", "next_back", "nth", "min", "max",
          "first_mut", "last_mut", "get", "get_mut", "max_by_key", "min_by_key", "max_by", "min_by"}
LIBFAIL = ("str::<impl str>::parse", "::from_str_radix", "str::converts::from_utf8", "String::from_utf8", "char::from_u32", "convert::from_u32",
           "from_digit", "fs::read", "fs::read_to_string", "fs::File::open", "::by_name", "::by_index", "ZipArchive::<R>::new", "ZipArchive::new",
           "::decode", "str::from_utf8")
PASS = {"as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned", "ok", "clone", "borrow", "deref", "as_bytes"}
ASCIIISH = {"format", "must_use", "encode", "finish", "hex", "to_hex"}


def last(n):
    return n.split("::")[-1]


def top(P, b):
    while "{closure" in b.id:
        p = P.bodies.get(b.id.rsplit("::{closure", 1)[0])
        if p is None:
            break
        b = p
    return b


def is_site(b):
    for i in b.reach():
        t = b.blocks[i]["t"]
        if t[1] == "assert" and (t[4] in ("bounds", "div0", "rem0") or t[4] == "overflow:Sub"):
            return True
        if t[1] == "call":
            n = mir.callee(t) or ""
            f = mir.fninfo(t) or {}
            s = last(n)
            if "core::ops::index" in f.get("fn", "") and "HashMap" not in n and "BTree" not in n:
                return True
            if s in ("unwrap", "expect") and ("Option" in n or "Result" in n):
                return True
            if s in TEXTCUT and ("str" in n.lower() or "vec::Vec" in n):
                return True
    return False


def inl(b, d):
    if "::tests" in b.id or len(b.blocks) > 60:
        return False
    r = b.lty(0)["s"]
    return any(k in r for k in ("usize", "&str", "bool", "&")) or r.startswith("std::option")


class Judge:
    def __init__(self, c):
        self.c, self.P = c, c.P
        self.fail = self.failing()
        self.memo = {}

    # ------------------------------------------------------------ crate functions that report malformed input
    def failing(self):
        F = set()
        for b in self.P.bodies.values():
            if "::tests" in b.id or not b.lty(0)["s"].startswith("std::result::Result<") or "::generator::" in b.id:
                continue
            for i in b.reach():
                for s in b.blocks[i]["s"]:
                    if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "core::result::Result" and s[2][1][3] == "Err":
                        F.add(b.id)
                t = b.blocks[i]["t"]
                if t[1] == "call":
                    n = mir.callee(t) or ""
                    if last(n) in ("ok_or", "ok_or_else", "map_err") or any(n.endswith(x) or x in n for x in LIBFAIL):
                        F.add(b.id)
        more = True
        while more:
            more = False
            for b in self.P.bodies.values():
                if b.id in F or not b.lty(0)["s"].startswith("std::result::Result<") or "::generator::" in b.id or "::tests" in b.id:
                    continue
                if any((self.P.callee_id(b, t) or "") in F for _, t in b.calls()):
                    F.add(b.id)
                    more = True
        return F

    # ------------------------------------------------------------ where an optional value comes from
    def origin(self, b, bb, o=None, n=0):
        """("call", callee name, crate function id, block) | ("field",) | ("arg",) | None"""
        if n > 8:
            return None
        if o is None:
            o = b.blocks[bb]["t"][3][0]
        p = o.get("m") or o.get("c")
        if not p:
            return None
        return self.place_origin(b, p, n)

    def place_origin(self, b, p, n):
        if any(x[0] == "f" for x in p[1]):
            return ("field",)
        x = p[0]
        if 1 <= x <= b.argc:
            return ("arg",)
        defs = []
        for i in b.reach():
            for s in b.blocks[i]["s"]:
                if s[1] == [x, []] and s[2][0] != "dead":
                    defs.append(("s", s[2]))
            t = b.blocks[i]["t"]
            if t[1] == "call" and t[4] == [x, []]:
                defs.append(("c", t, i))
        if len(defs) != 1:
            return None
        d = defs[0]
        if d[0] == "s":
            if d[1][0] == "use":
                q = d[1][1].get("m") or d[1][1].get("c")
                return self.place_origin(b, q, n + 1) if q else None
            if d[1][0] == "ref":
                return self.place_origin(b, d[1][2], n + 1)
            return None
        nm = mir.callee(d[1]) or ""
        if last(nm) in PASS and d[1][3]:
            return self.origin(b, d[2], d[1][3][0], n + 1)
        return ("call", nm, self.P.callee_id(b, d[1]), d[2])

    def fallible(self, b, bb, pub):
        """'bad' when absence is a matter of the input, 'ctx' when the caller decides, None when not understood"""
        og = self.origin(b, bb)
        if og is None:
            return None
        if og[0] == "field":
            return "bad"
        if og[0] == "arg":
            return "bad" if pub else "ctx"
        nm, cid, blk = og[1:]
        s = last(nm)
        t = b.blocks[blk]["t"]
        if all("t" in a and "k" in a for a in t[3]) and t[3]:
            return None                     # constants only
        if cid in self.P.bodies:
            return "bad" if cid in self.fail and t[3] else None
        if any(x in nm for x in LIBFAIL):
            return "bad"
        if s not in SEARCH:
            return None
        names = [mir.callee(x) or "" for bx in self.P.bodies.values() if bx.id.startswith(top(self.P, b).id) for _, x in bx.calls()]
        if "HashMap" in nm or "BTree" in nm or "IndexMap" in nm:
            if s != "get" and s != "get_mut":
                return None
            return None if any(last(x) in ("contains_key", "insert", "entry", "keys", "collect", "extend", "from") for x in names) else "bad"
        if not (nm.startswith("core::") or nm.startswith("alloc::") or nm.startswith("std::") or nm.startswith("<")):
            return None
        if s in ("next", "nth", "next_back") and any(last(x) in ("peek", "peekable", "as_str") for x in names):
            return None
        if s in ("next", "next_back", "nth") and any(last(x) in ("is_empty", "len") for x in names):
            return None
        ty = b.lty((t[3][0].get("m") or t[3][0].get("c") or [0])[0])["s"] if t[3] else ""
        if s in ("next", "next_back", "nth", "last", "min", "max") and not any(
                k in ty for k in ("std::str::", "std::slice::Iter", "std::vec::IntoIter", "std::iter::Map", "std::iter::Enumerate", "std::iter::Rev",
                                  "std::iter::Copied", "std::iter::Cloned", "str", "Vec", "[")):
            return None
        return "bad"

    # ------------------------------------------------------------ numbers
    def num(self, e, x, kind, pub, base, seen=None, n=0):
        """worst class of the atoms of an affine number: 'bad' understood, 'ctx' decided by the caller, None unknown"""
        seen = seen if seen is not None else set()
        res = "bad"
        if n > 30:
            return None
        for a in atoms(x):
            if a in seen:
                continue
            seen.add(a)
            r = self.atom(e, a, kind, pub, base, seen, n)
            if r is None:
                return None
            if r == "ctx":
                res = "ctx"
        return res

    def symclass(self, e, path, kind, pub, base, what):
        """a value named by a path: ('arg', i, fields..) | ('at', frame, block, tag, fields..)"""
        if not isinstance(path, tuple) or not path:
            return None
        if path[0] == "arg":
            if len(path) == 2:
                return "bad" if pub else "ctx"
            if what == "list":
                return "bad"
            if kind == "cut":
                if base is not None and base[:2] == path[:2]:
                    return None             # position kept beside its text
                return "bad" if pub or path[1] == 1 else "ctx"
            return None if pub else "ctx"
        if path[0] == "at":
            fr, bb, tag = path[1], path[2], path[3]
            if not isinstance(bb, int) or fr not in e.bodies:
                return None
            if what == "list":
                if tag == "ret":
                    b = e.bodies[fr]
                    t = b.blocks[bb]["t"]
                    cid = self.P.callee_id(b, t) if t[1] == "call" else None
                    return "bad" if len(path) == 4 and cid not in self.P.bodies else None
                return "bad" if tag in ("el", "it", "col", "r") or isinstance(tag, tuple) and tag[:1] == ("it",) else None
            if isinstance(tag, tuple) and tag and tag[0] == "cast":
                return "bad" if kind == "cut" else None
            if tag == "ret" or isinstance(tag, tuple) and tag[:1] == ("ret",):
                b = e.bodies[fr]
                t = b.blocks[bb]["t"]
                if t[1] != "call":
                    return None
                nm = mir.callee(t) or ""
                if self.P.callee_id(b, t) in self.P.bodies:
                    return None
                return "bad" if last(nm) in ("parse", "from_str_radix", "count", "len", "width") else None
            return None
        return None

    def atom(self, e, a, kind, pub, base, seen, n):
        k = a[0]
        if k == "len":
            r = a[1]
            if r[0] in ("K", "KB"):
                return "bad"
            if r[0] == "R":
                return self.rclass(e, r)
            if r[0] == "sym":
                return self.symclass(e, r[1], kind, pub, base, "list")
            return None
        if k == "sym":
            return self.symclass(e, a[1], kind, pub, base, "num")
        xs = []
        m = e.meta.get(a)
        if m:
            if m[0] == "pos":
                xs += [m[2], m[4]]
            elif m[0] == "bnd":
                xs += list(m[1]) + list(m[2])
            elif m[0] == "alts":
                xs += list(m[1])
        if a in e.phi:
            xs += [v for v, _ in e.phi[a]]
        if not xs and not m and a not in e.phi:
            return "bad" if k == "a" and a[-1] == "count" else None
        res = "bad"
        for x in xs:
            r = self.num(e, x, kind, pub, base, seen, n + 1)
            if r is None:
                return None
            if r == "ctx":
                res = "ctx"
        return res

    def rclass(self, e, r):
        fr, bb = r[1], r[2]
        b = e.bodies.get(fr)
        if b is None or not isinstance(bb, int):
            return None
        return "bad"

    def textroot(self, e, r):
        """is the text one whose characters are up to the input"""
        if r[0] in ("K", "KB"):
            return True
        path = r if r[0] == "R" else r[1] if r[0] == "sym" else None
        if not isinstance(path, tuple):
            return False
        if path[0] in ("at", "R"):
            fr, bb = path[1], path[2]
            b = e.bodies.get(fr)
            if b is None or not isinstance(bb, int):
                return False
            t = b.blocks[bb]["t"]
            if t[1] == "call" and path[3] in ("ret", "r"):
                nm = mir.callee(t) or ""
                if last(nm) in ASCIIISH:
                    return False
                tys = [b.lty((a.get("m") or a.get("c"))[0])["s"] if (a.get("m") or a.get("c")) else b.ty(a["t"])["s"] for a in t[3]]
                if all(y.strip("&") in bounds.UINTS | bounds.INTS | {"f32", "f64", "bool"} for y in tys):
                    return False
                if last(nm) == "to_string" and any("usize" in str(x) or "u32" in str(x) for x in (mir.fninfo(t) or {}).get("ra", [])):
                    return False
        return True

    # ------------------------------------------------------------ one obligation
    def classify(self, e, key, o, pub):
        fr, bb = key
        b = e.bodies[fr]
        kind = o[0]
        if kind == "unw":
            return self.fallible(b, bb, pub)
        if kind == "trunc":
            return None
        if kind in ("idx", "lim"):
            ix, ln = (o[2], o[3])
            if ix[0] != "n":
                return None
            L = ln[1] if isinstance(ln, tuple) and ln and ln[0] == "n" else ln if kind == "lim" else None
            if L is None:
                return None
            return self.worst([self.num(e, ix[1], kind, pub, None), self.num(e, L, kind, pub, None)])
        if kind in ("div", "sub"):
            c = o[2]
            if c[0] != "c":
                return None
            k = c[1]
            if k[0] == "not":
                k = k[1]
            if k[0] in ("true", "false"):
                return "bad"
            if k[0] != "cmp":
                return None
            return self.worst([self.num(e, k[2], kind, pub, None), self.num(e, k[3], kind, pub, None)])
        # cut
        view = o[2]
        xs = [x for x in (o[3], o[4]) if x is not None]
        base = view[1][1] if view[1][0] == "sym" else None
        r = self.worst([self.num(e, x, "cut", pub, base) for x in xs])
        if view[0] == "q":
            L = self.num(e, e.end(view), "idx", pub, None)
            return self.worst([r, L])
        if r == "bad" and not self.textroot(e, view[1]):
            return None
        return r

    @staticmethod
    def worst(rs):
        if any(r is None for r in rs):
            return None
        return "ctx" if "ctx" in rs else "bad"


def run(c):
    P = c.P
    J = Judge(c)
    tops, seen = [], set()
    for b in sorted(P.bodies.values(), key=lambda b: (b.file, b.line, b.id)):
        if "::tests" in b.id or not is_site(b):
            continue
        x = top(P, b)
        if x.exp or "clap_builder" in x.id or x.id in seen:
            continue
        seen.add(x.id)
        tops.append(x)
    total, proven, kinds = 0, 0, {}
    for b in tops:
        try:
            e = bounds.analyse(P, b, inl)
        except (bounds.Overrun, RecursionError):
            c.undec("%s: too many paths" % b.id)
            continue
        sites = {}
        for key, o in sorted(e.obl.items(), key=repr):
            own = e.bodies[key[0]]
            if top(P, own).id != b.id:
                continue
            sites.setdefault((own.id, key[1]), []).append((key, o))
        for (oid, bb), lst in sorted(sites.items()):
            total += 1
            kind = lst[0][1][0]
            kinds.setdefault(kind, [0, 0])[0] += 1
            bad, why, cls = None, None, "proved"
            for key, o in lst:
                r = e.decide(o)
                if not r:
                    continue
                k = J.classify(e, key, o, b.pub) if r != "opaque" else None
                if cls != "bad":
                    cls, why = (k or "unknown"), r
            if cls == "proved":
                proven += 1
                kinds[kind][1] += 1
                continue
            if cls == "ctx":
                cls, why = context(P, J, b, oid, bb, why)
                if cls == "proved":
                    proven += 1
                    kinds[kind][1] += 1
                    continue
            own = P.bodies[oid]
            line = lst[0][1][1]
            if cls == "bad":
                desc = {"cut": "cuts a text or list", "idx": "uses a position of a list", "lim": "inserts or removes at a position of a list",
                        "div": "divides", "unw": "takes out a value", "sub": "subtracts sizes"}[kind]
                m = re.match(r"(.*?)(?: \(called from ([^()]*)\))?$", why)
                # the function whose callers choose the value names the site
                c.violate("%s|%s|%s" % ("crate::" + m.group(2) if m.group(2) else b.id, kind, m.group(1)), "%s %s, and on some input this panics: %s" % (b.id.replace("crate::", ""), desc, why),
                          "%s:%d" % (own.file, line))
            else:
                c.undec("%s:%d %s: %s" % (own.file, line, kind, why))
    c.floor("functions with sites", len(tops), 30)
    c.floor("sites judged", total, 120)
    c.floor("sites proved safe", proven, 100)
    for k, (n, p) in sorted(kinds.items()):
        c.coverage["%s: sites / proved" % KIND.get(k, k)] = [n, p]
    c.coverage["crate functions whose error means malformed input"] = len(J.fail)
    c.assumptions += ["counts and byte lengths are below 2^31 (additions do not overflow, conversions of sizes to u32 keep them)",
                      "positions that a parser object keeps beside its text, elements of index lists and results of functions the analysis does not "
                      "enter are listed as undecided, not judged"]


def context(P, J, b, oid, bb, why, n=0, chain=None):
    """a private function judged with the arguments its callers pass"""
    chain = chain or {b.id}
    callers = sorted({top(P, P.bodies[x]).id for x, _ in P.callers().get(b.id, ()) if x in P.bodies} - chain)
    callers = [x for x in callers if "::tests" not in x]
    if not callers or n > 2:
        return "unknown", why
    res, rwhy = "proved", None
    for cid in callers:
        cb = P.bodies[cid]
        try:
            e = bounds.analyse(P, cb, lambda x, d: x.id in chain or inl(x, d))
        except (bounds.Overrun, RecursionError):
            return "unknown", why
        found = False
        for key, o in sorted(e.obl.items(), key=repr):
            own = e.bodies[key[0]]
            if own.id != oid or key[1] != bb:
                continue
            found = True
            r = e.decide(o)
            if not r:
                continue
            k = J.classify(e, key, o, cb.pub) if r != "opaque" else None
            if k == "ctx":
                k, r = context(P, J, cb, oid, bb, r, n + 1, chain | {cid})
                if k == "proved":
                    continue
            if k == "bad":
                return "bad", "%s (called from %s)" % (r, cid.replace("crate::", ""))
            res, rwhy = "unknown", r
        if not found and res == "proved":
            reached = any(oid in str(k[0]) for k in e.obl)
            res, rwhy = "unknown", why
    return res, rwhy or why

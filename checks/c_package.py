"""P06 package closure: content types, relationships and references agree with the parts that are written."""
import posixpath, re
import ctx as C
import mir, xmldom
from affine import Affine, Aff
from emit import Engine, Limit
from value import DEAD, V, Frame, frame, mk, pretty
IDS = ["P06"]

REFS = {"r:id", "r:embed", "r:link"}
DOC = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
PKG = "http://schemas.openxmlformats.org/package/2006/relationships/"
PML = "application/vnd.openxmlformats-officedocument.presentationml."
# root element -> (content type, relationship type) of the parts ECMA-376 defines
KIND = {
    "p:presentation": (PML + "presentation.main+xml", DOC + "officeDocument"),
    "p:sld": (PML + "slide+xml", DOC + "slide"),
    "p:sldLayout": (PML + "slideLayout+xml", DOC + "slideLayout"),
    "p:sldMaster": (PML + "slideMaster+xml", DOC + "slideMaster"),
    "p:notes": (PML + "notesSlide+xml", DOC + "notesSlide"),
    "p:notesMaster": (PML + "notesMaster+xml", DOC + "notesMaster"),
    "p:handoutMaster": (PML + "handoutMaster+xml", DOC + "handoutMaster"),
    "p:presentationPr": (PML + "presProps+xml", DOC + "presProps"),
    "p:viewPr": (PML + "viewProps+xml", DOC + "viewProps"),
    "p:cmLst": (PML + "comments+xml", DOC + "comments"),
    "p:cmAuthorLst": (PML + "commentAuthors+xml", DOC + "commentAuthors"),
    "a:tblStyleLst": (PML + "tableStyles+xml", DOC + "tableStyles"),
    "a:theme": ("application/vnd.openxmlformats-officedocument.theme+xml", DOC + "theme"),
    "c:chartSpace": ("application/vnd.openxmlformats-officedocument.drawingml.chart+xml", DOC + "chart"),
    "cp:coreProperties": ("application/vnd.openxmlformats-package.core-properties+xml", PKG + "metadata/core-properties"),
    "Properties": ("application/vnd.openxmlformats-officedocument.extended-properties+xml", DOC + "extended-properties"),
    "Signature": ("application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml", PKG + "digital-signature/signature"),
    "ink:ink": ("application/inkml+xml", DOC + "customXml"),
}
# parts that are not XML: extension -> (content types, relationship types)
BINARY = {
    "png": ("image/png", "image"), "jpg": ("image/jpeg", "image"), "jpeg": ("image/jpeg", "image"), "gif": ("image/gif", "image"),
    "bmp": ("image/bmp", "image"), "tif": ("image/tiff", "image"), "tiff": ("image/tiff", "image"), "svg": ("image/svg+xml", "image"),
    "webp": ("image/webp", "image"), "emf": ("image/x-emf", "image"), "wmf": ("image/x-wmf", "image"),
    "fntdata": ("application/x-fontdata", "font"),
    "xlsx": ("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", "package"),
    "sigs": ("application/vnd.openxmlformats-package.digital-signature-origin", None),
    "rels": ("application/vnd.openxmlformats-package.relationships+xml", None),
}
# element carrying a reference -> relationship types it may name
REFTYPE = {
    "p:sldId": {"slide"}, "p:sldMasterId": {"slideMaster"}, "p:sldLayoutId": {"slideLayout"}, "p:notesMasterId": {"notesMaster"},
    "p:handoutMasterId": {"handoutMaster"}, "a:blip": {"image"}, "c:chart": {"chart"}, "a:hlinkClick": {"hyperlink", "slide"},
    "a:hlinkHover": {"hyperlink", "slide"}, "a:hlinkMouseOver": {"hyperlink", "slide"}, "c:externalData": {"package"},
    "p:regular": {"font"}, "p:bold": {"font"}, "p:italic": {"font"}, "p:boldItalic": {"font"},
    "a:videoFile": {"video"}, "a:audioFile": {"audio"}, "p:oleObj": {"oleObject", "package"},
    "p:contentPart": {"customXml", "ink"},
}


class PackDomain(xmldom.XmlDomain):
    """XML lexer that remembers package entries, relationships and references to them"""
    remember = True

    def __init__(self, **kw):
        xmldom.XmlDomain.__init__(self, **kw)
        self.keep = {"Default", "Override", "Relationship"} | REFS
        self.vt, self.vid = [], {}
        self.tags, self.lost, self.roots = set(), set(), set()
        self.on_tag = self.tag

    def slot(self, v):
        if v not in self.vid:
            self.vid[v] = len(self.vt)
            self.vt.append(v)
        return self.vid[v]

    def grow(self, tag, attr, acc, piece):
        if not (tag in self.keep or attr in self.keep):
            return acc + piece if attr.startswith("xmlns") else ""
        if not piece:
            return acc
        hole = piece.startswith("\0{")
        if "&" in piece and not hole:
            piece, hole = "\0{+}", True
        if hole and acc.endswith("}") and "\0{" in acc:
            return acc[:acc.rindex("\0{")] + "\0{+}"
        return (acc + piece)[:200]

    def hole(self, eng, st, desc, danger, v):
        if st[0] == "Q" and (st[2] in self.keep or st[3] in self.keep):
            return [st[:5] + (self.grow(st[2], st[3], st[5], "\0{%d}" % self.slot(v)), st[6])]
        return xmldom.XmlDomain.hole(self, eng, st, desc, danger, v)

    def num(self, eng, st, v, spec):
        if st[0] == "Q" and (st[2] in self.keep or st[3] in self.keep):
            return [st[:5] + (self.grow(st[2], st[3], st[5], "\0#%d;" % self.slot(v)), st[6])]
        return xmldom.XmlDomain.num(self, eng, st, v, spec)

    def kept(self, st):
        return st[2] in self.keep or any(a[0] in REFS for a in st[6] if isinstance(a, tuple))

    def key(self, st):
        # attributes of one emission stay together
        if self.kept(st):
            return st, frozenset()
        return st[:6], st[6]

    def join(self, a, b):
        if self.kept(a):
            return a
        return a[:6] + (a[6] | b[6],)

    def tag(self, eng, stk, tag, attrs):
        if not stk:
            self.roots.add(tag)
        if tag in ("Default", "Override", "Relationship") or any(a[0] in REFS for a in attrs):
            self.tags.add((tag, frozenset(a for a in attrs if isinstance(a, tuple) and len(a) == 2), frozenset(eng.curf)))

    def fragment(self, eng, st, v, how):
        kind, pos = how
        if kind == "insert" and pos and pos[0]:
            m = re.match(r"</([A-Za-z0-9:]+)>$", pos[0])
            if m and any(e[0] == m.group(1) for e in st[1]):
                self.lost.add((m.group(1), eng.where()[0].id, eng.where()[1]))
        return xmldom.XmlDomain.fragment(self, eng, st, v, how)


def pieces(s):
    """attribute text -> list of literal strings, ('n', slot) and ('h', slot or None)"""
    out = []
    for m in re.finditer(r"\0#(\d+);|\0\{(\d+|\+)\}|([^\0]+)", s):
        if m.group(1):
            out.append(("n", int(m.group(1))))
        elif m.group(2):
            out.append(("h", None if m.group(2) == "+" else int(m.group(2))))
        else:
            out.append(m.group(3))
    return out


SITES = []


def escapers(P):
    """functions &str -> text that replace the markup characters by entities"""
    out = set()
    for b in P.bodies.values():
        if b.kind == "closure" or b.argc != 1 or not b.lty(1)["s"].endswith("str"):
            continue
        if not any(x in b.lty(0)["s"] for x in ("String", "Cow", "str")):
            continue
        lits = set()
        for x in P.reachable([b.id]):
            xb = P.body(x)
            if xb is not None:
                lits |= xb.strings()
        if {"&amp;", "&lt;"} <= lits and not any("<" in k[:-1] for k in lits):
            out.add(b.id)
    return out


def collect(c):
    """every package part the generator writes: path template, root element, package entries / relationships / references in it"""
    P = c.P
    esc = escapers(P)
    c.coverage["escaping_functions_seen_through"] = sorted(C.short_fn(e) for e in esc)
    del SITES[:]
    roots = {}
    for b, fr, bi, p, v in c.zip_writes():
        ts = c.templates(p) if p is not None else []
        if ts == [("_rels/.rels",)]:
            roots[b.id] = None
    for b, fr, bi, p, v in c.zip_writes():
        inr = [r for r in roots if b.id in P.reachable([r])]
        if not inr or p is None:
            continue
        line = b.blocks[bi]["t"][0]
        site = dict(fn=b.id, file=b.file, line=line, roots=inr, paths=[t for t in c.templates(p)], dom=PackDomain(), root=None, tags=(), xml=False)
        SITES.append(site)
        site["path"] = [C.tpretty(t) for t in site["paths"]]
        if c.opaque(v):
            continue
        xs = c.xml_suffix(p)
        if xs is False:
            continue
        for remember in (True, False):
            # parts with very many options are followed without the facts callees establish
            site["dom"] = dom = PackDomain()
            dom.remember = remember
            eng = Engine(P, c.R, dom)
            eng.ident = esc
            eng.stack = [(b, line)]
            try:
                eng.profiled(lambda e: e.emit(v, ((), frozenset())))
                eng.emit(v, (xmldom.start(), frozenset()))
                site["xml"] = True
                break
            except Limit as e:
                if not remember:
                    c.undec("%s: contents of %s: %s" % (b.id, site["path"], e))
        site["root"], site["tags"] = sorted(dom.roots), dom.tags
    return roots




class Subst:
    """values of a helper's parameters, seen from the single call that reaches it below a package writer"""

    def __init__(self, c, root):
        self.c, self.root = c, root
        self.reach = c.P.reachable([root])
        self.memo, self.busy = {}, set()

    def arg(self, fn, i):
        if fn == self.root or fn not in self.reach:
            return None
        sites = [(b, bi, t) for b, bi, t in self.c.call_sites(fn) if b.id in self.reach]
        if len(sites) != 1:
            return None
        b, bi, t = sites[0]
        if i - 1 >= len(t[3]):
            return None
        v = self.c.R.operand(self.c.R.root(b), bi, len(b.blocks[bi]["s"]), t[3][i - 1])
        return self.of(v)

    def of(self, v):
        if v in self.memo:
            return self.memo[v]
        if v in self.busy or v.depth > 60:
            return v
        self.busy.add(v)
        r = None
        if v.k == "arg":
            r = self.arg(v.a[0], v.a[2])
        if r is None and v.k == "f":
            x = self.of(v.a[0])
            r = self.c.R.project(x, *v.a[1:]) if x is not v.a[0] else v
        if r is None:
            a = tuple(self.walk(x) for x in v.a)
            r = mk(v.k, *a) if a != v.a else v
        self.busy.discard(v)
        self.memo[v] = r
        return r

    def walk(self, x):
        if isinstance(x, V):
            return self.of(x)
        if isinstance(x, tuple):
            return tuple(self.walk(y) for y in x)
        if isinstance(x, Frame):
            a = tuple(self.of(y) if y is not None else None for y in x.args)
            return frame(x.body, a) if a != x.args else x
        return x


class Num:
    """numbers in part names and relationship ids: normal forms, and their values in a deck where every
    collection has n elements and every optional feature is present"""

    def __init__(self, c):
        self.c, self.A = c, Affine(c.R)
        self.busy = set()

    def base(self, v):
        """a range index that starts at k is k plus an index from 0"""
        a = self.A.of(v)
        r = Aff(a.c)
        for x, k in a.t.items():
            r = r.add(self.atom(x), k)
        return r

    def atom(self, x):
        if x.k == "idx":
            lo, hi = self.A.bounds(x)
            if hi is not None and (lo.c or lo.t) and not any(y.k == "idx" for y in lo.t):
                n = hi.add(Aff(1)).add(lo, -1)
                return lo.add(Aff(0, {mk("ordinal", n.key() if n.t else n.c): 1}))
            if hi is not None:
                n = hi.add(Aff(1))
                if len(n.t) == 1 and n.c == 0 and list(n.t.values()) == [1]:
                    t = list(n.t)[0]
                    return Aff(0, {mk("ordinal", n.key()): 1})
                if not n.t:
                    return Aff(0, {mk("ordinal", n.c): 1})
        return Aff(0, {x: 1})

    def count_atom(self, x):
        if x.k == "arg" or x.k == "ext" and x.a[0].split("::")[-1] in ("len", "count"):
            return True
        return x.k == "virt" and all(self.c.P.body(m) is not None and self.c.P.body(m).lty(0)["s"] == "usize" for m in x.a[0])

    def flag_atom(self, x):
        if x in self.A.flag and x.k not in ("phi", "app", "bin", "un", "loc"):
            return True
        if x.k == "ext":
            s = x.a[0].split("::")[-1]
            if s == "unwrap_or" and len(x.a[1]) == 2 and x.a[1][1].k == "c" and x.a[1][1].a[0] == "bool":
                return True
            return s in ("is_some", "any") or s == "is_some_and"
        return x.k == "virt" and all(self.c.P.body(m) is not None and self.c.P.body(m).lty(0)["s"] == "bool" for m in x.a[0])

    def op(self, x, n, on):
        """value of an arithmetic or logical operation that has no linear form"""
        if x.k == "ext" and len(x.a[1]) == 2:
            f = {"min": min, "max": max, "saturating_sub": lambda p, q: max(0, p - q), "wrapping_add": lambda p, q: p + q,
                 "saturating_add": lambda p, q: p + q}.get(x.a[0].split("::")[-1])
            ab = x.a[1]
        elif x.k == "bin":
            f = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "Mul": lambda p, q: p * q, "Div": lambda p, q: p // q if q else 0,
                 "Rem": lambda p, q: p % q if q else 0, "Gt": lambda p, q: int(p > q), "Lt": lambda p, q: int(p < q), "Ge": lambda p, q: int(p >= q),
                 "Le": lambda p, q: int(p <= q), "Eq": lambda p, q: int(p == q), "Ne": lambda p, q: int(p != q)}.get(x.a[0].replace("WithOverflow", ""))
            ab = x.a[1:]
        elif x.k == "un" and x.a[0] == "Not":
            p = self.uniform(x.a[1], n, on)
            return {1 - y for y in p} if p and p <= {0, 1} else None
        else:
            return None
        if f is None:
            return None
        p, q = self.uniform(ab[0], n, on), self.uniform(ab[1], n, on)
        if p is None or q is None or len(p) * len(q) > 64:
            return None
        return {f(y, z) for y in p for z in q}

    def merged(self, x, n, on):
        """a local that branches (not loops) assign: with every optional feature present the largest of its values"""
        steps, root = [], x
        while root.k == "f":
            steps.append(root.a[1:])
            root = root.a[0]
        if root.k not in ("phi", "loc") or x in self.busy:
            return None
        fr, local = root.a[:2]
        D = self.c.R.defs(fr.body)
        self.busy.add(x)
        try:
            out = set()
            for d in D.reaching(local, *root.a[2:]) if root.k == "phi" else D.info[local].full:
                y = self.c.R.defval(fr, d)
                for st in reversed(steps):
                    y = self.c.R.project(y, *st)
                if y is DEAD:
                    continue
                ys = self.uniform(y, n, on)
                if ys is None or len(ys) != 1:
                    return None
                out |= ys
            return ((max if on else min)(out),) if out else None
        finally:
            self.busy.discard(x)

    def relative(self, v, n):
        """(parts that are not understood, values of the rest)"""
        a = self.A.of(v) if isinstance(v, V) else v
        known, free = Aff(a.c), Aff(0)
        for x, k in a.t.items():
            t = Aff(0, {x: k})
            if self.uniform(t, n) is None:
                free = free.add(t)
            else:
                known = known.add(t)
        u = self.uniform(known, n)
        return (free.key() if free.t else None, u) if u is not None else None

    def uniform(self, v, n, on=1):
        """set of values, or None when some part of it is not understood"""
        a = self.A.of(v) if isinstance(v, V) else v
        vals = {a.c}
        for x, k in a.t.items():
            if x.k == "idx":
                lo, hi = self.A.bounds(x)
                if hi is None:
                    return None
                ls, hs = self.uniform(lo, n, on), self.uniform(hi, n, on)
                if ls is None or hs is None or len(ls) != 1 or len(hs) != 1:
                    return None
                xs = range(min(ls), max(hs) + 1)
            elif self.flag_atom(x):
                xs = (on,)
            elif self.count_atom(x):
                xs = (n,)
            else:
                xs = self.merged(x, n, on) or self.op(x, n, on)
                if xs is None:
                    return None
            vals = {y + k * z for y in vals for z in xs}
            if len(vals) > 200:
                return None
        return vals


class Ref:
    """attribute text: literal pieces with numbers and strings"""

    def __init__(self, site, text, sub=None):
        self.p = []
        for x in pieces(text):
            if isinstance(x, tuple):
                v = site["dom"].vt[x[1]] if x[1] is not None else None
                if v is not None and sub is not None:
                    v = sub.of(v)
                self.p.append((x[0], v))
            else:
                self.p.append(x)
        self.shape = "".join(x if isinstance(x, str) else ("#" if x[0] == "n" else "{}") for x in self.p)

    def number(self):
        """(prefix, value) when the text is a prefix and a number"""
        if len(self.p) == 1 and isinstance(self.p[0], str):
            m = re.match(r"^(.*?)([0-9]+)$", self.p[0])
            if m:
                return m.group(1), mk("c", "int", int(m.group(2)))
            return self.p[0], None
        if len(self.p) == 2 and isinstance(self.p[0], str) and self.p[1][0] == "n":
            return self.p[0], self.p[1][1]
        return None

    def hole(self):
        return self.p[0][1] if len(self.p) == 1 and isinstance(self.p[0], tuple) and self.p[0][0] == "h" else None

    def nums(self):
        return [x[1] for x in self.p if isinstance(x, tuple) and x[0] == "n"]


def rx(shape):
    return re.compile("^" + "".join("[0-9]+" if x == "#" else "[^/]+" if x == "{}" else re.escape(x) for x in re.split(r"(#|\{\})", shape)) + "$")


def fits(a, b):
    """two part name shapes can denote the same name"""
    if a == b:
        return True
    return bool(rx(a).match(b.replace("#", "7").replace("{}", "x")) or rx(b).match(a.replace("#", "7").replace("{}", "x")))


def clash(f1, f2):
    """facts of two emissions exclude each other"""
    d = {}
    for v, x in f1:
        d.setdefault(v, []).append(x)
    for v, x in f2:
        for y in d.get(v, ()):
            if x[0] == "=" and y[0] == "=" and x[1] != y[1]:
                return True
            if x[0] == "=" and y[0] == "!" and x[1] in y[1] or y[0] == "=" and x[0] == "!" and y[1] in x[1]:
                return True
    return False


def varies(v, seen=None):
    """v depends on the element or position of an iteration"""
    return bool(v.vol)


def source_of(rels):
    """part a relationships part belongs to"""
    d, f = posixpath.split(rels)
    if not f.endswith(".rels") or posixpath.basename(d) != "_rels":
        return None
    return posixpath.join(posixpath.dirname(d), f[:-5])


def run(c):
    roots = collect(c)
    N = Num(c)
    c.floor("package_writers", len(roots), 1)
    n_obl = {}

    def ob(kind, key):
        n_obl.setdefault(kind, set()).add(key)
    for s in SITES:
        for tag, fn, line in s["dom"].lost:
            c.violate("lost|%s|%s" % (tag, C.short_fn(fn)), "an entry is inserted before </%s>, which has not been written yet: the entry is dropped" % tag,
                      "%s:%s in %s" % (c.P.bodies[fn].file, line, fn), [s["fn"]])
            ob("insertions", (tag, fn))
    N.by_turn = whole(c, N, ob)
    for root in sorted(roots):
        sites = [s for s in SITES if root in s["roots"]]
        sub = Subst(c, root)
        one(c, N, sub, root, sites, ob)
    for k in ("parts", "overrides", "targets", "references", "id_pairs"):
        c.floor(k + "_checked", len(n_obl.get(k, ())), {"parts": 25, "overrides": 20, "targets": 20, "references": 8, "id_pairs": 20}[k])
    for k in sorted(n_obl):
        c.coverage.setdefault(k + ("" if "_" in k and k.split("_")[-1] in ("proved", "compared", "undecided") else "_checked"), len(n_obl[k]))
    c.coverage["rule"] = ("per package writer: every part has the content type of its root element (or extension); every Override and internal relationship "
                          "names a written part; relationship types fit the part they name; ids within a relationships part are distinct; "
                          "every r:id/r:embed/r:link names a relationship of a fitting type")
    c.explanation = ("abstract interpretation of every package write: entry name templates, root elements, Default/Override/Relationship elements and "
                     "references with their attribute values as symbolic integers; linear normal forms decide numbering and id agreement")
    c.assumptions += ["counters and values computed by loops that are not linear in an iteration index are undecided (listed)",
                      "parts copied from a template package are not judged"]


def one(c, N, sub, root, sites, ob):
    R = C.short_fn(root)
    parts, ct, rels = [], [], {}
    for s in sites:
        for t in s["paths"]:
            sh = C.shape(t)
            if sh in ("...", "{}"):
                c.undec("%s: %s: entry name not known (%s)" % (R, s["fn"], s["path"]))
                continue
            if sh == "[Content_Types].xml":
                ct.append(s)
            elif sh.endswith(".rels"):
                rels.setdefault(sh, []).append(s)
            parts.append((sh, t, s))
    defaults, overrides = {}, []
    anyext = False
    for s in ct:
        for tag, at, facts in s["tags"]:
            a = dict(at)
            if tag == "Default":
                ext, ty = Ref(s, a.get("Extension", ""), sub), a.get("ContentType", "")
                if ext.shape == "{}":
                    anyext = True
                elif "\0" not in ty:
                    defaults.setdefault(ext.shape.lower(), set()).add(ty)
            elif tag == "Override":
                overrides.append((Ref(s, a.get("PartName", ""), sub), a.get("ContentType", ""), facts, s))
    if not ct:
        c.violate("no-content-types|%s" % R, "the package has no [Content_Types].xml", root)
        return
    # defaults
    for ext, tys in defaults.items():
        for ty in tys:
            if ext in BINARY:
                ob("defaults", (root, ext))
                if ty != BINARY[ext][0]:
                    c.violate("default|%s" % ext, "extension %s is declared as %s, its content type is %s" % (ext, ty, BINARY[ext][0]), where(c, ct[0]))
    # a. every part has a content type
    for sh, t, s in parts:
        if sh == "[Content_Types].xml":
            continue
        ext = posixpath.splitext(sh)[1][1:].lower() or posixpath.basename(sh).rsplit(".", 1)[-1]
        ov = [o for o in overrides if fits(o[0].shape, "/" + sh)]
        ob("parts", (root, sh))
        if not ov and ext not in defaults and not (ext == "{}" and anyext):
            if ext == "{}":
                c.violate("content-type|%s|%s" % (R, sh), "part %s can have any extension, and only the extensions %s are declared" % (sh, sorted(defaults)), where(c, s))
            elif not (anyext and ext in BINARY):
                c.violate("content-type|%s|%s" % (R, sh), "part %s has no content type: neither an Override nor a Default for its extension" % sh, where(c, s))
            continue
        for e in s["root"] or ():
            if e not in KIND or sh.endswith((".rels", ".sigs")):
                continue
            want = KIND[e][0]
            got = {o[1] for o in ov} or defaults.get(ext, set())
            for g in got:
                if g != want and "\0" not in g:
                    c.violate("content-type|%s|%s" % (R, sh), "part %s is a <%s> document and is declared as %s instead of %s" % (sh, e, g, want), where(c, s))
        if ext in BINARY and ov and not s["root"]:
            for o in ov:
                if o[1] != BINARY[ext][0]:
                    c.violate("content-type|%s|%s" % (R, sh), "part %s is declared as %s instead of %s" % (sh, o[1], BINARY[ext][0]), where(c, s))
    # b. overrides name written parts, with the numbers the parts have
    for o, ty, facts, s in overrides:
        ob("overrides", (root, o.shape))
        hit = [(t, x) for sh, t, x in parts if fits(o.shape, "/" + sh)]
        if not hit:
            c.violate("override|%s|%s" % (R, o.shape), "[Content_Types].xml declares %s, which is not written" % o.shape, where(c, s))
            continue
        numbering(c, N, sub, R, "Override", o, hit, where(c, s), ob)
    # c. relationships
    pending, named, unread = {}, set(), False
    for rsh, ss in sorted(rels.items()):
        src = source_of(rsh)
        owner = [(sh, t, x) for sh, t, x in parts if src is not None and fits(sh, src)]
        if src and src != "." and not owner and rsh != "_rels/.rels":
            c.violate("orphan-rels|%s|%s" % (R, rsh), "%s belongs to a part that is not written" % rsh, where(c, ss[0]))
        for s in ss:
            rel = []
            for tag, at, facts in sorted(s["tags"], key=str):
                if tag != "Relationship":
                    continue
                a = dict(at)
                rel.append((Ref(s, a.get("Id", ""), sub), a.get("Type", ""), Ref(s, a.get("Target", ""), sub), a.get("TargetMode"), facts))
            for i, (rid, ty, tg, mode, facts) in enumerate(rel):
                if not rid.p:
                    c.violate("no-id|%s|%s" % (R, rsh), "a relationship to %s has no Id" % tg.shape, where(c, s))
                if mode is None:
                    base = posixpath.dirname(src) if src else ""
                    named.add(tg.shape.lstrip("/") if tg.shape.startswith("/") else posixpath.normpath(posixpath.join(base, tg.shape)))
                    unread = unread or not tg.p or not isinstance(tg.p[0], str)
                    target(c, N, sub, R, rsh, src, ty, tg, parts, where(c, s), ob)
                loop = [p for p in tg.p if isinstance(p, tuple) and p[1] is not None and p[1].vol]
                rv = [p for p in rid.p if isinstance(p, tuple)]
                ob("id_pairs", (root, rsh, rid.shape, tg.shape))
                if loop and counted(s, sub) and all(p[1] is not None and p[0] == "n" and not p[1].vol and N.uniform(p[1], 2) is not None for p in rv):
                    inner = set().union(*[p[1].vol for p in loop]) - pathvol(s, sub)
                    if inner:
                        c.violate("same-id|%s|%s|%s" % (R, rsh, tg.shape), "every relationship to %s in %s gets the same Id %s" % (tg.shape, rsh, rid.shape), where(c, s))
                for rid2, ty2, tg2, mode2, facts2 in rel[i + 1:]:
                    if (ty, tg.shape) == (ty2, tg2.shape) and rid.shape == rid2.shape or clash(facts, facts2):
                        continue
                    ob("id_pairs", (root, rsh, rid.shape, tg.shape, rid2.shape, tg2.shape))
                    r = distinct(N, rid, rid2)
                    ob("id_pairs_" + {True: "proved", False: "equal", None: "undecided"}.get(r, "compared"), (root, rsh, rid.shape, tg.shape, rid2.shape, tg2.shape))
                    if r is False:
                        k = sorted([tg.shape, tg2.shape])
                        c.violate("same-id|%s|%s|%s|%s" % (R, rsh, k[0], k[1]), "relationships to %s and %s in %s get the same Id" % (k[0], k[1], rsh), where(c, s))
                    elif r is None:
                        pending.setdefault(rsh, set()).update((rid.shape, rid2.shape))
    for rsh, shapes in sorted(pending.items()):
        c.undec("%s: %s: some pairs of ids %s" % (R, rsh, sorted(shapes)))
    # every part can be reached: some relationship names it
    for sh, t, s in parts:
        if sh == "[Content_Types].xml" or sh.endswith(".rels") or sh in ("{}", "..."):
            continue
        ob("related", (root, sh))
        if unread or any(fits(x, sh) for x in named):
            continue
        c.violate("unrelated|%s|%s" % (R, sh), "no relationship of the package names the part %s" % sh, where(c, s))
    # d. references
    for sh, t, s in parts:
        refs = []
        for tag, at, facts in sorted(s["tags"], key=str):
            for k, v in at:
                if k in REFS and v:
                    refs.append((tag, k, Ref(s, v, sub), facts))
        if not refs:
            continue
        rsh = posixpath.join(posixpath.dirname(sh), "_rels", posixpath.basename(sh) + ".rels")
        rs = [x for r2, ss in rels.items() if fits(r2, rsh) for x in ss]
        rel = []
        for x in rs:
            for tag, at, facts in x["tags"]:
                if tag == "Relationship":
                    a = dict(at)
                    rel.append((Ref(x, a.get("Id", ""), sub), a.get("Type", "").split("/")[-1], facts))
        for tag, k, ref, facts in refs:
            ob("references", (root, sh, tag, k))
            ok = REFTYPE.get(tag)
            cand = [r for r in rel if ok is None or r[1] in ok or "\0" in r[1]]
            if not rs:
                c.violate("dangling|%s|%s|%s" % (R, sh, tag), "<%s %s> in %s: the part has no relationships" % (tag, k, sh), where(c, s))
                continue
            if not cand:
                c.violate("dangling|%s|%s|%s" % (R, sh, tag), "<%s %s> in %s: its relationships have none of type %s" % (tag, k, sh, sorted(ok or ())), where(c, s))
                continue
            r = resolves(N, ref, cand)
            ob("references_" + {True: "proved", False: "dangling", None: "undecided"}.get(r, "compared"), (root, sh, tag, k))
            if r is False:
                c.violate("dangling|%s|%s|%s" % (R, sh, tag), "<%s %s=\"%s\"> in %s does not name the relationship that is written for it" % (tag, k, ref.shape, sh), where(c, s))
            elif r is None:
                c.undec("%s: <%s %s> in %s: id not decided" % (R, tag, k, sh))


def counted(s, sub):
    """the numbers in the part's name are fixed or positions in an iteration (a running counter does not
    tell which iterations the part itself belongs to)"""
    for t in s["paths"]:
        for q in t if t != "..." else ():
            if not isinstance(q, str) and (q[1] is None or not sub.of(q[1]).vol):
                return False
    return True


def pathvol(s, sub):
    out = set()
    for t in s["paths"]:
        if t == "...":
            continue
        for q in t:
            if not isinstance(q, str) and q[1] is not None:
                v = sub.of(q[1])
                out |= v.vol
                for x in list(v.vol):
                    if x.k == "idx":
                        out |= {mk("elem", *x.a)}
    return out | {mk("idx", *x.a) for x in out if x.k == "elem"}


def where(c, s):
    return "%s:%s in %s" % (s["file"], s["line"], s["fn"])


def numbering(c, N, sub, R, what, ref, hit, wh, ob):
    """the first numbers used by a reference are those of the parts written"""
    ns = ref.nums()
    if len(ns) != 1:
        return
    turn = N.by_turn.get(ref.shape.split("#")[0]) if what == "Override" else None
    if turn and numbered_by_turn(N, ns[0]):
        for t, s in hit:
            ps = [sub.of(q[1]) for q in t if not isinstance(q, str) and q[0] == "n" and q[1] is not None]
            if ps and not any(numbered_by_turn(N, v) for v in ps) and any(x.k == "phi" for v in ps for x in N.A.of(v).t):
                c.violate("by-turn|%s|%s" % (R, ref.shape), "only some turns write an entry for %s, and it is numbered by the turn while the parts are counted" % ref.shape, wh)
    a = N.relative(ns[0], 3)
    if a is None:
        return
    free, a = a
    b = set()
    for t, s in hit:
        ps = [q for q in t if not isinstance(q, str) and q[0] == "n"]
        if not ps:
            m = re.search(r"([0-9]+)[^0-9]*$", "".join(q for q in t if isinstance(q, str)))
            if not m:
                return
            if free is not None:
                return
            b.add(int(m.group(1)))
            continue
        if len(ps) != 1 or ps[0][1] is None:
            return
        x = N.relative(sub.of(ps[0][1]), 3)
        if x is None or x[0] != free:
            return
        b |= x[1]
    ob("numberings", (R, ref.shape))
    if not a <= b or (what == "Override" or len(a) > 1) and not b <= a:
        c.violate("numbering|%s|%s" % (R, ref.shape), "%s %s is numbered %s and the parts written are numbered %s" % (what, ref.shape, sorted(a), sorted(b)), wh)


def target(c, N, sub, R, rsh, src, ty, tg, parts, wh, ob):
    if not tg.p:
        c.violate("target|%s|%s|empty" % (R, rsh), "a relationship of %s has no target" % rsh, wh)
        return
    if not isinstance(tg.p[0], str):
        c.undec("%s: target %s of %s" % (R, tg.shape, rsh))
        return
    ob("targets", (R, rsh, tg.shape))
    if re.match(r"^[a-z]+:", tg.shape):
        c.violate("target|%s|%s|%s" % (R, rsh, tg.shape), "%s is written as an internal target: it is not a part name and TargetMode is not External" % tg.shape, wh)
        return
    base = posixpath.dirname(src) if src else ""
    name = tg.shape.lstrip("/") if tg.shape.startswith("/") else posixpath.normpath(posixpath.join(base, tg.shape))
    hit = [(t, x) for sh, t, x in parts if fits(name, sh)]
    if not hit:
        c.violate("target|%s|%s|%s" % (R, rsh, tg.shape), "%s names %s, which is not written" % (rsh, name), wh)
        return
    numbering(c, N, sub, R, "Target", tg, hit, wh, ob)
    if "\0" in ty:
        return
    for t, x in hit:
        ext = posixpath.splitext(name)[1][1:].lower()
        for e in x["root"] or ():
            if e in KIND and ty != KIND[e][1]:
                c.violate("type|%s|%s" % (rsh, tg.shape), "%s relates the <%s> part %s by the type %s instead of %s" % (rsh, e, name, ty, KIND[e][1]), wh)
        if not x["root"] and ext in BINARY and BINARY[ext][1] and ty.split("/")[-1] != BINARY[ext][1]:
            c.violate("type|%s|%s" % (rsh, tg.shape), "%s relates %s by the type %s" % (rsh, name, ty), wh)
        if name.startswith("ppt/media/") and ty.split("/")[-1] not in ("image", "video", "audio", "media"):
            c.violate("type|%s|%s" % (rsh, tg.shape), "%s relates the media part %s by the type %s" % (rsh, name, ty), wh)


def distinct(N, a, b):
    """True / False / None (not known)"""
    x, y = a.number(), b.number()
    if x is None or y is None:
        if a.hole() is not None and a.hole() is b.hole() and not a.hole().vol:
            return False
        return None
    if x[0] != y[0]:
        return True if x[1] is None or y[1] is None or not (x[0].startswith(y[0]) or y[0].startswith(x[0])) else None
    if x[1] is None or y[1] is None:
        return x[1] is not y[1]
    d = N.A.of(x[1]).add(N.A.of(y[1]), -1)
    if not d.t:
        # one value in one turn of a loop: two alternatives of the same turn
        return True if d.c else None if any(v.k == "idx" for v in N.A.of(x[1]).t) else False
    ax, ay = N.A.of(x[1]), N.A.of(y[1])
    if N.A.extreme(d, -1, {}) > 0 or N.A.extreme(d, 1, {}) < 0:
        return True
    for on in (1, 0):
        for n in (1, 2, 3):
            p, q = N.uniform(ax, n, on), N.uniform(ay, n, on)
            if p is None or q is None:
                return None
            if p & q and on:
                return False
    return "uniform"


def resolves(N, ref, cand):
    """True: some relationship always has this id; False: none can; None: not known"""
    h = ref.hole()
    if h is not None:
        return True if any(r[0].hole() is h for r in cand) else None
    x = ref.number()
    if x is None:
        return None
    unknown = False
    ys = []
    for r in cand:
        y = r[0].number()
        if y is None:
            unknown = True
            continue
        if y[0] != x[0]:
            continue
        if x[1] is None or y[1] is None:
            if x[1] is None and y[1] is None:
                return True
            continue
        if N.base(x[1]).key() == N.base(y[1]).key():
            return True
        ys.append(y[1])
    if x[1] is None:
        return None if unknown else False
    for on in (1, 0):
        for n in (1, 2, 3):
            u = N.uniform(x[1], n, on)
            us = [N.uniform(y, n, on) for y in ys]
            if u is None or unknown or any(z is None for z in us):
                return None
            if not u <= set().union(*us):
                return False
    return "uniform"


ZERO = {("Gt", 0), ("Ge", 1), ("Lt", 1), ("Le", 0), ("Eq", 0), ("Ne", 0)}
FLIP = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}
CAPS = ("min", "max", "clamp", "saturating_sub", "checked_sub", "take", "skip", "step_by", "take_while", "skip_while")

# questions about a value beyond its presence
OPTIONAL = re.compile(r"::(is_empty|len|trim|trim_start|trim_end|contains|starts_with|ends_with|any|all|is_some_and|is_none_or|filter)$")


def writers(c):
    """functions of the generator that write entries or the lists of them, with their direct callers"""
    own = {b.id: b for b in c.P.bodies.values() if b.crate == "ppt_rs" and b.file.startswith("src/generator") and "::tests::" not in b.id}
    core = {i for i, b in own.items() if any(re.search(r"<(Override|Default|Relationship) ", x) for x in b.strings())
            or any((mir.callee(t) or "").endswith("::start_file") for _, t in b.calls())}
    up = {i for i, b in own.items() if any((mir.callee(t) or "") in core for _, t in b.calls())}
    up |= {i for i in own if "::{closure" in i and i.split("::{closure")[0] in core | up}
    return [own[i] for i in sorted(core | up)], core | up, core


def integer(op):
    k = op.get("k") if isinstance(op, dict) else None
    return k.get("i") if isinstance(k, dict) and isinstance(k.get("i"), int) and not isinstance(k.get("i"), bool) else None


def whole(c, N, ob):
    """the lists of parts and the parts are written for all counts alike: no condition sets a count against a number other than
    zero, no cap, no flag stands in the way of another flag's entries, and what is written for some turns is not numbered by turn"""
    from conds import Conds, emits, origin
    W = Conds(c)
    bodies, use, core = writers(c)
    by_turn = {}
    c.floor("entry_writers", len(bodies), 8)
    for b in bodies:
        fr = c.R.root(b)
        fn = b.id.split("::")[-1]
        out, entry = [], set()
        for bi in sorted(b.reach()):
            t = b.blocks[bi]["t"]
            if not b.blocks[bi].get("cl") and t[1] == "call":
                n = mir.callee(t) or ""
                texts = [x for a in t[3] for x in re.findall(r"<(?:Override|Default|Relationship) [^>]*", str(a))]
                if n.endswith("::start_file") or n in use or texts or emits(c, b, bi):
                    out.append(bi)
                    if n.endswith("::start_file") or n in use or texts:
                        entry.add(bi)
                if OPTIONAL.search(n):
                    at = origin(c.R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][0])) if t[3] else ""
                    m = re.search(r"\.(notes|ink_annotations|digital_signature|embedded_fonts)\b", at)
                    if m:
                        c.violate("presence|%s|%s" % (fn, m.group(1)), "the entries for %s depend on more than it being present (%s)" % (m.group(1), n.split("::")[-1]),
                                  "%s:%s in %s" % (b.file, t[0], b.id), [b.id])
                    ob("presence_tests", (b.id, bi))
        for bi in sorted(b.reach()):
            blk = b.blocks[bi]
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                if len(s) < 3 or not isinstance(s[2], list) or not s[2] or s[2][0] != "bin" or s[2][1] not in ("Gt", "Ge", "Lt", "Le", "Eq", "Ne"):
                    continue
                op, x, y = s[2][1], s[2][2], s[2][3]
                if integer(x) is not None and integer(y) is None:
                    op, x, y = FLIP.get(op, op), y, x
                n = integer(y)
                if n is None or integer(x) is not None:
                    continue
                ob("counts_compared", (b.id, s[0]))
                if (op, n) not in ZERO:
                    c.violate("threshold|%s" % fn, "what is written depends on a count or position being compared with %d" % n, "%s:%s in %s" % (b.file, s[0], b.id), [b.id])
            t = blk["t"]
            if b.id in core and t[1] == "call" and (mir.callee(t) or "").split("::")[-1] in CAPS and any(integer(a) is not None for a in t[3]):
                c.violate("cap|%s|%s" % (fn, mir.callee(t).split("::")[-1]), "a count or sequence of parts is cut with a constant", "%s:%s in %s" % (b.file, t[0], b.id), [b.id])
        for bi in out:
            flags = []
            turn = False
            for w, can in W.nec(b, bi):
                v = W.cond(fr, w)
                tt = b.blocks[w]["t"]
                vals = {str(x) for x, s in tt[3] if s in can} | ({"else"} if tt[4] in can else set())
                if v.k == "discr" and v.a[0].k == "ext" and v.a[0].a[0].endswith("::next") or w in c.R.guards(b):
                    continue
                if W.D.cyclic(b, w) and W.D.cyclic(b, bi) and not str(v).endswith(".branch())"):
                    turn = True
                pos = "0" not in vals
                while v.k == "un" and v.a[0] == "Not":
                    v, pos = v.a[1], not pos
                if v.k in ("app", "arg") and not (v.k == "app" and v.a[0].body.derived) and v.k != "discr":
                    flags.append((str(v), pos))
            ob("entries_guarded", (b.id, bi))
            for x, p in flags if bi in entry else ():
                for y, q in flags:
                    if x != y and p and not q:
                        c.violate("else|%s|%s|%s" % (fn, x[:60], y[:60]), "an entry is written when %s only if %s does not hold" % (x[:60], y[:60]),
                                  "%s:%s in %s" % (b.file, b.blocks[bi]["t"][0], b.id), [b.id])
            if turn:
                args = [c.R.operand(fr, bi, len(b.blocks[bi]["s"]), a) for a in b.blocks[bi]["t"][3]]
                shapes = set()
                for v in args:
                    shapes |= set(re.findall(r'PartName=\\?"(/[^"\\]*)\\xc0', str(v)))
                if not shapes and any(isinstance(a, dict) for a in b.blocks[bi]["t"][3]):
                    w = bi
                    for _ in range(6):
                        ps = [p for p in b.pred(w) if not b.blocks[p].get("cl")]
                        if len(ps) != 1:
                            break
                        w = ps[0]
                        t = b.blocks[w]["t"]
                        m = [x for a in (t[3] if t[1] == "call" else ()) for x in re.findall(r'PartName=\\?"(/[^"\\]*)["\']*$', str(c.R.operand(fr, w, len(b.blocks[w]["s"]), a)))]
                        if m:
                            shapes |= {x.rstrip("'") for x in m}
                            break
                for x in shapes:
                    for v in args:
                        if numbered_by_turn(N, v):
                            by_turn.setdefault(x, []).append("%s:%s in %s" % (b.file, b.blocks[bi]["t"][0], b.id))
    return by_turn


def numbered_by_turn(N, v):
    """the numbers in v are positions in an iteration"""
    seen = []
    stack = [v]
    while stack:
        x = stack.pop()
        if x.k == "idx":
            seen.append(True)
        elif x.k in ("phi", "loc"):
            seen.append(False)
        elif x.k in ("app", "ext", "arr", "agg", "bin", "cast", "un", "ref"):
            for y in x.a:
                stack += [z for z in (y if isinstance(y, tuple) else (y,)) if hasattr(z, "k")]
    return bool(seen) and all(seen)

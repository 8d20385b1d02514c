"""Shared context of the checks: program model, resolver, package write sites, XML analysis results, reporting."""
import os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, mir, value, emit, xmldom
from value import V, Frame, frame, mk, UNK, DEAD, pretty
from emit import Domain, Engine, Limit

TIER = os.environ.get("VERIF_TIER", "quick")


class TemplateDomain(Domain):
    """the text itself, as a tuple of literal pieces and holes ("\\0", value)"""
    LIM = 60

    def lit(self, eng, st, s):
        if not s or st == "...":
            return [st]
        if st and isinstance(st[-1], str):
            return [st[:-1] + (st[-1] + s,)]
        return [st + (s,)] if len(st) < self.LIM else ["..."]

    def hole(self, eng, st, desc, danger, v):
        if st == "...":
            return [st]
        return [st + (("h", v),)] if len(st) < self.LIM else ["..."]

    def num(self, eng, st, v, spec):
        if st == "...":
            return [st]
        return [st + (("n", v),)] if len(st) < self.LIM else ["..."]


def tpretty(t):
    """template as text with {..} holes"""
    if t == "...":
        return t
    return "".join(x if isinstance(x, str) else ("#{%s}" if x[0] == "n" else "{%s}") % pretty(x[1]) for x in t)


def shape(t):
    """template with anonymous holes"""
    if t == "...":
        return t
    return "".join(x if isinstance(x, str) else ("#" if x[0] == "n" else "{}") for x in t)


def short_fn(n):
    return re.sub(r"\bcrate::", "", n)


VIEW = re.compile(r"(Option|Result).*::(as_ref|as_deref|unwrap|expect|filter)$")


class Ctx:
    def __init__(self, pid, tier=TIER):
        self.id, self.tier = pid, tier
        self.t0 = time.time()
        self.P = mir.Program()
        self.R = value.Resolver(self.P)
        self.violations = {}
        self.coverage = {}
        self.assumptions = []
        self.undecided = []
        self.floor_errors = []

    # -------------------------------------------------------------- reporting
    def violate(self, key, what, where="", path=(), **more):
        if key not in self.violations:
            self.violations[key] = dict(key=key, what=what, where=where, path=list(path), **more)

    def floor(self, name, got, want):
        """the check saw at least `want` instances of what it quantifies over; fewer means it lost its anchor"""
        self.coverage[name] = got
        if got < want:
            self.floor_errors.append("%s: only %d found, at least %d expected" % (name, got, want))

    def undec(self, what):
        self.undecided.append(what)

    # -------------------------------------------------------------- templates
    def templates(self, v, facts=frozenset()):
        """every text the string value v can denote, as templates"""
        if not hasattr(self, "_te"):
            self._te = Engine(self.P, self.R, TemplateDomain())
        out = self._te.emit(v, ((), facts))
        return sorted({s for s, f in out}, key=str)

    def first_chars(self, v):
        if not hasattr(self, "_fe"):
            self._fe = Engine(self.P, self.R, xmldom.FirstDomain())
        return {s for s, f in self._fe.emit(v, (None, frozenset()))}

    # -------------------------------------------------------------- package write sites
    ZIPW = ("::write_all", "::write_fmt", "::write", "io::copy::copy")

    def is_zip(self, body, t, ai=0):
        if len(t[3]) <= ai:
            return False
        p = t[3][ai].get("c") or t[3][ai].get("m")
        if not p:
            return False
        ty = body.lty(p[0])
        return "zip::ZipWriter" in ty["s"] or "zip::write::ZipWriter" in ty["s"]

    def zip_writes(self):
        """[(body, frame, block, path value or None, content value)] for every write into a zip archive entry,
        with values seen from callers when a helper receives them as parameters"""
        if hasattr(self, "_zw"):
            return self._zw
        out = []
        for b in sorted(self.P.bodies.values(), key=lambda b: (b.file, b.line)):
            starts, writes = {}, []
            for bi, t in b.calls():
                n = mir.callee(t) or ""
                s = n.split("::")[-1]
                if s in ("start_file", "start_file_from_path", "add_directory", "raw_copy_file") and self.is_zip(b, t):
                    starts[bi] = t
                elif s in ("write_all", "write_fmt", "write") and self.is_zip(b, t):
                    writes.append((bi, t, 1))
                elif n.endswith("io::copy::copy") and self.is_zip(b, t, 1):
                    writes.append((bi, t, 0))
            for bi, t, ai in writes:
                ps = self._reaching_starts(b, bi, starts)
                for fr in self.expand(b, [(bi, t, ai)] + [(p, starts[p], 1) for p in ps]):
                    c = self.R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][ai])
                    if not ps:
                        out.append((b, fr, bi, None, c))
                    for p in sorted(ps):
                        pv = self.R.operand(fr, p, len(b.blocks[p]["s"]), starts[p][3][1])
                        out.append((b, fr, bi, pv, c))
        self._zw = out
        return out

    def _reaching_starts(self, b, blk, starts):
        out, seen, st = set(), set(), list(b.pred(blk))
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in starts:
                out.add(x)
                continue
            st.extend(b.pred(x))
        return out

    def expand(self, b, ops, depth=0, skip=False):
        """root frame of b, or one frame per caller when the operands are plain string/byte parameters of b"""
        fr = self.R.root(b)
        need = False
        for bi, t, ai in ops:
            v = self.R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][ai])
            if self.string_param(b, v):
                need = True
        if not need or depth > 4:
            return [fr]
        out = []
        for caller, cb, t in self.call_sites(b.id):
            for f2 in self.caller_frames(caller, t, cb, depth + 1):
                args = [self.R.operand(f2, cb, len(caller.blocks[cb]["s"]), a) for a in t[3]]
                out.append(frame(b, tuple(args)))
        return list(dict.fromkeys(out)) or [fr]

    def caller_frames(self, caller, t, cb, depth):
        fr = self.R.root(caller)
        for i, a in enumerate(t[3]):
            v = self.R.operand(fr, cb, len(caller.blocks[cb]["s"]), a)
            if self.string_param(caller, v):
                return self.expand(caller, [(cb, t, i)], depth)
        return [fr]

    def string_param(self, b, v):
        n = 0
        while v.k == "ext" and v.a[1] and n < 8 and v.a[0].split("::")[-1] in ("as_bytes", "as_str", "deref", "as_ref", "to_string",
                                                                             "into", "clone", "to_owned", "borrow", "into_bytes"):
            v = v.a[1][0]
            n += 1
        if v.k != "arg" or v.a[0] != b.id:
            return False
        ty = b.lty(v.a[2])
        while ty["k"] == "ref":
            ty = b.ty(ty["a"][0])
        return ty["s"] in ("str", "std::string::String", "alloc::string::String", "[u8]") or ty["k"] == "param" \
            or ty["s"].startswith(("std::vec::Vec<u8", "alloc::vec::Vec<u8"))

    def call_sites(self, id):
        if not hasattr(self, "_cs"):
            cs = {}
            for b in self.P.bodies.values():
                for bi, t in b.calls():
                    n = self.P.callee_id(b, t)
                    if n:
                        cs.setdefault(n, []).append((b, bi, t))
            self._cs = cs
        return self._cs.get(id, [])

    # -------------------------------------------------------------- sources of a value
    def sources(self, v, memo=None):
        """terminal origins of the characters of a string value"""
        out, seen, st = {}, set(), [v]
        n = 0
        while st and n < 4000:
            n += 1
            x = st.pop()
            if x is None or x in seen:
                continue
            seen.add(x)
            k = x.k
            if k in ("c", "fn", "clo", "idx", "discr", "un", "bin", "dead", "loc"):
                if k == "clo":
                    pass
                continue
            if k in ("f", "elem", "chr"):
                # a field path is a terminal unless its root is a local computation
                r = x
                while r.k in ("f", "elem", "chr") or r.k == "ext" and r.a[1] and VIEW.search(r.a[0]):
                    r = r.a[0] if r.k != "ext" else r.a[1][0]
                if r.k == "arg":
                    out[x] = 1
                    continue
                if r.k in ("virt",):
                    out[x] = 1
                    continue
                if r.k == "app":
                    st.append(r)
                    out[x] = 1
                    continue
                st.append(r)
                continue
            if k == "arg":
                out[x] = 1
                continue
            if k == "ext":
                if x.a[1]:
                    st.extend(a for a in x.a[1])
                else:
                    out[x] = 1
                continue
            if k == "app":
                out[x] = 1
                st.extend(a for a in x.a[0].args)
                continue
            if k in ("agg",):
                st.extend(x.a[2])
                continue
            if k in ("alt",):
                st.extend(x.a[0])
                continue
            if k == "pick":
                st.extend(x.a[1])
                continue
            if k == "optalt":
                st.extend(x.a[1:])
                continue
            if k == "cast":
                st.append(x.a[1])
                continue
            out[x] = 1
        return list(out)

    def field_key(self, v):
        """name of the datum a string value comes from: last named field of its path (stable under refactoring)"""
        n = 0
        while n < 40:
            n += 1
            if v.k == "f":
                if not str(v.a[2]).isdigit() and not str(v.a[2]).startswith("up"):
                    return str(v.a[2])
                v = v.a[0]
            elif v.k in ("elem", "chr"):
                v = v.a[0]
            elif v.k == "arg":
                return v.a[1]
            elif v.k == "ext" and v.a[1]:
                v = v.a[1][0]
            elif v.k == "app" and v.a[0].args:
                a = [x for x in v.a[0].args if x is not None and x.k not in ("clo", "c", "fn")]
                if not a:
                    return v.a[0].body.name or "?"
                v = a[0]
            elif v.k == "optalt":
                v = v.a[1]
            elif v.k == "alt" and v.a[0]:
                v = v.a[0][0]
            elif v.k in ("phi", "buf", "loc"):
                return v.a[0].body.names.get(v.a[1], "_")
            elif v.k == "cast":
                v = v.a[1]
            elif v.k == "virt":
                return "slide"
            else:
                break
        return "?"

    def opaque(self, v):
        """bytes of an existing part / media file, carried verbatim"""
        n = 0
        while v is not None and n < 60:
            n += 1
            if v.k == "f":
                if "Vec<u8>" in v.a[3] or "[u8]" in v.a[3]:
                    return True
                v = v.a[0]
            elif v.k in ("elem", "chr"):
                v = v.a[0]
            elif v.k == "app":
                b = v.a[0].body
                st = b.ty(b.selfty)["s"] if b.selfty is not None else ""
                if st.endswith("package::Package"):
                    return True
                if v.a[0].args and v.a[0].args[0] is not None and v.a[0].args[0].k == "clo":
                    v = v.a[0].args[1] if len(v.a[0].args) > 1 else None
                    continue
                return False
            elif v.k == "ext" and v.a[1]:
                v = v.a[1][0]
            elif v.k == "cast":
                v = v.a[1]
            elif v.k == "optalt":
                return self.opaque(v.a[1]) and self.opaque(v.a[2])
            elif v.k == "arg":
                b = self.P.body(v.a[0])
                ty = b.lty(v.a[2])["s"]
                return "[u8]" in ty or "Vec<u8>" in ty or ty.endswith("package::Package")
            elif v.k in ("buf", "phi"):
                ty = v.a[0].body.lty(v.a[1])["s"]
                return "[u8]" in ty or "Vec<u8>" in ty
            elif v.k == "c":
                x = v.a[1]
                return not (x.lstrip().startswith(b"<" if isinstance(x, bytes) else "<") if isinstance(x, (str, bytes)) else False)
            else:
                return False
        return False

    def user_sources(self, v):
        """caller-supplied data the characters of v come from (byte contents of existing parts excluded)"""
        if self.opaque(v):
            return []
        out = []
        for s in self.sources(v):
            if self.opaque(s):
                continue
            if s.k == "arg":
                b = self.P.body(s.a[0])
                ty = b.lty(s.a[2])
                while ty["k"] == "ref":
                    ty = b.ty(ty["a"][0])
                if ty["s"] in emit.INTS or ty["k"] == "closure":
                    continue
            if s.k == "f" and emit.strip_refs(s.a[3]) in emit.INTS:
                continue
            if s.k in ("arg", "f", "elem", "chr", "virt"):
                out.append(s)
        return out

    # -------------------------------------------------------------- XML text analysis
    STRING_RET = re.compile(r"(^|[<&( ])(std|alloc)::string::String($|[>,) ])|^&'?[a-z_]* ?str$|^String$")

    def add_part_sites(self):
        """(body, frame, block, path value, content value) of every part stored into an open package"""
        out = []
        for b in sorted(self.P.bodies.values(), key=lambda b: (b.file, b.line)):
            if b.file.startswith("src/opc/"):
                continue
            for bi, t in b.calls():
                n = self.P.callee_id(b, t) or ""
                if n.endswith("package::Package::add_part"):
                    for fr in self.expand(b, [(bi, t, 1), (bi, t, 2)]):
                        i = len(b.blocks[bi]["s"])
                        out.append((b, fr, bi, self.R.operand(fr, bi, i, t[3][1]), self.R.operand(fr, bi, i, t[3][2])))
        return out

    def xml_suffix(self, path):
        """is the part an XML document?  True/False, or None when the path is not known statically"""
        if path is None:
            return None
        r = set()
        try:
            ts = self.templates(path)
        except Limit:
            return None
        for t in ts:
            if t == "..." or not t or not isinstance(t[-1], str):
                r.add(None)
            else:
                r.add(t[-1].endswith((".xml", ".rels", ".sigs", ".vml")))
        return True if r == {True} else False if r == {False} else None

    def xml_analysis(self, models=None, fragments=True, domkw=None, dom_class=None):
        """runs the XML lexer domain over every XML part the library writes and every public XML fragment producer"""
        dom_class = dom_class or xmldom.XmlDomain
        dom = dom_class(models=models, require_ns=True, **(domkw or {}))
        eng = Engine(self.P, self.R, dom)
        roots = []
        for b, fr, bi, p, v in self.zip_writes() + self.add_part_sites():
            xs = self.xml_suffix(p)
            if xs is False or self.opaque(v):
                continue
            roots.append((b, fr, bi, p, v, xs))
        done = []
        for b, fr, bi, p, v, xs in roots:
            line = b.blocks[bi]["t"][0]
            if xs is None:
                try:
                    if "<" not in self.first_chars(v):
                        continue
                except Limit:
                    continue
            eng.stack = [(b, line)]
            eng.profiled(lambda e: e.emit(v, ((), frozenset())))
            try:
                outs = eng.emit(v, (xmldom.start(), frozenset()))
            except Limit as e:
                self.undec("%s: %s" % (b.id, e))
                continue
            if not outs:
                self.undec("%s:%s: the text written here could not be reconstructed" % (b.id, line))
            done.append((b.id, line))
            for st, f in outs:
                if st[0] != "T" or [x for x in st[1] if not x[0].startswith("\0")]:
                    dom.report(eng, "unbalanced", "document ends inside <%s>" % (st[1][-1][0] if st[1] else st[2]))
            eng.stack = []
        dom.settle()
        nfrag = 0
        fdom = dom_class(models=models, **(domkw or {}))
        feng = Engine(self.P, self.R, fdom)
        if fragments:
            for b in sorted(self.P.bodies.values(), key=lambda b: (b.file, b.line)):
                if b.kind == "closure" or b.id in eng.visited or b.id in feng.visited or not self.returns_string(b):
                    continue
                if b.crate != "ppt_rs" or not b.vis or not self.xml_module(b):
                    continue
                to = self.forwards(b)
                if to is not None and not self.P.bodies[to].vis and (to in eng.visited or to in feng.visited):
                    continue
                fr = self.R.root(b)
                try:
                    fe = Engine(self.P, self.R, xmldom.FirstDomain())
                    fe.multi = set()
                    fs = {s for s, f in fe.run(fr, 0, (), "ret", (None, frozenset()))}
                    if "<" not in fs:
                        continue
                    nfrag += 1
                    feng.profiled(lambda e: e.run(fr, 0, (), "ret", ((), frozenset())))
                    outs = feng.run(fr, 0, (), "ret", (xmldom.start(), frozenset()))
                except Limit as e:
                    self.undec("%s: %s" % (b.id, e))
        for k, (f, l) in list(eng.unknown.items()) + list(feng.unknown.items()):
            self.undec("%s in %s: %s" % (k[0], k[1], str(k[2])[:80]))
        return dom, fdom, eng, feng, done, nfrag

    def forwards(self, b):
        """the function b only passes its parameters on to"""
        own = [(bi, self.P.callee_id(b, t)) for bi, t in b.calls() if self.P.callee_id(b, t) in self.P.bodies]
        if len(own) != 1 or any(b.blocks[x]["t"][1] == "switch" for x in b.reach()):
            return None
        bi, to = own[0]
        t = b.blocks[bi]["t"]
        fr = self.R.root(b)
        n = len(b.blocks[bi]["s"])
        ok = t[4] and t[4][0] == 0 and all(self.R.operand(fr, bi, n, a).k == "arg" for a in t[3])
        return to if ok else None

    def returns_string(self, b):
        return bool(self.STRING_RET.search(b.lty(0)["s"]))

    def xml_module(self, b):
        """modules that produce OOXML (HTML, Markdown and SVG exporters are judged by their own property)"""
        return b.file.startswith(("src/generator/", "src/parts/", "src/oxml/", "src/elements/", "src/core/", "src/opc/", "src/helpers/")) \
            and not b.file.endswith("xmlchemy.rs")

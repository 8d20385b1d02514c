"""P26 HTML/Markdown exports escape text, P27 they contain the text of every slide: text domains over the exporters' emission paths."""
import re
import emit, mir, xmldom
from value import mk
from emit import Engine, Domain, Limit
import ctx as C
from depend import Depend
IDS = ["P26", "P27"]
MD = frozenset("\\*_[]`#<>")


def origin(v):
    """path of the datum a string comes from: presentation.slides[].title"""
    n = 0
    tail = ""
    while n < 60:
        n += 1
        if v.k == "f":
            if not (str(v.a[2]).isdigit() or str(v.a[2]).startswith("up")):
                tail = "." + str(v.a[2]) + tail
            elif str(v.a[1]) not in ("Some", "Ok", "None"):
                # the element of an enumerated pair and the like
                pass
            v = v.a[0]
        elif v.k in ("elem", "chr"):
            w = v.a[0]
            while w.k == "ext" and w.a[1] and w.a[0].split("::")[-1] in ("iter", "into_iter", "as_ref"):
                w = w.a[1][0]
            if not (w.k == "f" and "Option<" in str(w.a[3]).split("Vec<")[0]):
                tail = "[]" + tail
            v = v.a[0]
        elif v.k == "arg":
            return v.a[1] + tail
        elif v.k == "ext" and v.a[1]:
            m = v.a[0].split("::")[-1]
            if "Option" not in v.a[0] and m in ("skip", "take", "step_by", "filter", "take_while", "skip_while", "truncate", "split_at", "get", "index", "nth", "first", "last", "chunks", "windows", "dedup"):
                tail = "{%s}" % m + tail
            v = v.a[1][0]
        elif v.k == "app" and v.a[0].args:
            a = [x for x in v.a[0].args if x is not None and x.k not in ("clo", "c", "fn")]
            if not a:
                return "?" + tail
            m = v.a[0].body.id.split("::")[-1]
            tail = "." + re.sub(r"^get_", "", m) + tail
            v = a[0]
        elif v.k == "optalt":
            v = v.a[1]
        else:
            return "?" + tail
    return "?" + tail


class Html(xmldom.XmlDomain):
    def __init__(self):
        xmldom.XmlDomain.__init__(self, html=True)
        self.seen, self.lits, self.sites = set(), set(), []

    def lit(self, eng, st, s):
        self.lits.add(s)
        return xmldom.XmlDomain.lit(self, eng, st, s)

    def hole(self, eng, st, desc, danger, v):
        if st[0] == "T" and danger & frozenset("&<") or st[0] == "R":
            self.count("text-hole", eng, desc)
            self.report(eng, "unescaped", "%s reaches text unescaped" % desc, "text", v)
        self.sites.append((v, tuple(eng.fstack)))
        self.seen.add(("raw" if st[0] in "RMD" else "text" if st[0] == "T" else "attr", v))
        return xmldom.XmlDomain.hole(self, eng, st, desc, danger, v)


class Markdown(Domain):
    """state: (mode, start of the line)  mode: T text, C code fence, F front matter, L link target"""

    def __init__(self):
        self.viol, self.obl, self.seen, self.lits, self.sites = {}, {}, set(), set(), []

    def key(self, st):
        return st

    def join(self, a, b):
        return a

    def split(self, st):
        return st, None

    def rejoin(self, st, rest):
        return st

    def escaped(self, st, rest):
        return False

    def count(self, kind, eng, extra=""):
        b, l = eng.where()
        self.obl.setdefault(kind, set()).add((b.id if b else "?", l, extra))

    def lit(self, eng, st, s):
        self.lits.add(s)
        mode, pre = st
        for c in s:
            if c == "\n":
                if pre.startswith("```") and mode in "TC":
                    mode = "C" if mode == "T" else "T"
                elif pre == "^---":
                    mode = "F"
                elif pre.startswith("---") and mode == "F":
                    mode = "T"
                elif mode == "L":
                    mode = "T"
                pre = ""
                continue
            if mode == "T" and c == "(" and pre.endswith("]"):
                mode = "L"
            elif mode == "L" and c == ")":
                mode = "T"
            if len(pre) < 4:
                pre += c
            elif c == "]" or pre.endswith("]"):
                pre = pre[:3] + c
        return [(mode, pre)]

    def hole(self, eng, st, desc, danger, v):
        mode, pre = st
        self.sites.append((v, tuple(eng.fstack)))
        self.seen.add((mode, v))
        if mode == "T" and not pre.startswith("```"):
            line = pre.lstrip("^")[:1]
            self.count("text-hole", eng, desc)
            bad = danger & (MD | ({"\n"} if line == "#" else {"\n", "|"} if line == "|" else frozenset()))
            if bad:
                b, l = eng.where()
                self.viol.setdefault((b.id if b else "?", desc), {
                    "rule": "unescaped", "fn": b.id if b else "?", "file": b.file if b else "?", "line": l, "v": v, "sink": "Markdown",
                    "detail": "%s reaches Markdown text with %s unescaped" % (desc, " ".join(repr(x)[1:-1] for x in sorted(bad))),
                    "path": ["%s:%d" % (x.id, y) for x, y in eng.stack if x is not None][-8:]})
        if not pre:
            pre = "x"
        return [(mode, pre)]

    def num(self, eng, st, v, spec):
        return [(st[0], st[1] or "0")]


def md_danger(s):
    """active characters of a literal: a backslash makes the next one text"""
    esc = set("\x01") if re.search(r"\\[^A-Za-z0-9\s]", s) else set()
    s = s.replace("\n> ", "\n")      # the exporter's own quote marker on the next line of a quote
    return esc | set(re.sub(r"\\[^A-Za-z0-9\s]", "", s)) & set(emit.DANGER)


# what a reader of the slide sees as text, and the element of the export that has to show it
TEXTS = {"title": r"^\w+(\.title)?$", "slide title": r"\.slides\[\]\.title$", "bullets": r"\.slides\[\]\.content(\[\])?$",
         "table cells": r"\.slides\[\]\.table\.rows\[\]\.cells\[\]\.text$", "code": r"\.slides\[\]\.code_blocks\[\]\.code$",
         "speaker notes": r"\.slides\[\]\.notes$"}


def options(c, make, start, b):
    """per boolean option of exporter b: what is written with the option off / on (sources and literal text)"""
    out = {}
    for i in range(1, b.argc + 1):
        a = c.P.adts["ppt_rs"].get(C_base(b, i, "d"))
        if not a or a["enum"] or "Options" not in C_base(b, i):
            continue
        fs = a["v"][0]["f"]
        arg = c.R.root(b).args[i - 1]
        for n, f in enumerate(fs):
            if b.ty(f[1])["s"] != "bool":
                continue
            r = []
            for val in (0, 1):
                vs = tuple(mk("c", "bool", val) if m == n else c.R.project(arg, "", g[0], b.ty(g[1])["s"]) for m, g in enumerate(fs))
                dom = make()
                eng = Engine(c.P, c.R, dom)
                fr = c.R.root(b, {i: mk("agg", C_base(b, i, "d"), "", vs)})
                try:
                    eng.profiled(lambda e: e.run(fr, 0, payload(b), "ret", ((), frozenset())))
                    dom.seen, dom.lits = set(), set()
                    eng.run(fr, 0, payload(b), "ret", (start, frozenset()))
                except Limit as e:
                    c.undec("%s: %s" % (b.id, e))
                    r = None
                    break
                r.append(frozenset(dom.lits) | frozenset((m, origin(s)) for m, v in dom.seen for s in c.user_sources(v)))
            if r:
                out[f[0]] = r
    return out


def payload(b):
    ts = b.lty(0)["s"]
    return (("Ok", "0"),) if re.match(r"(std|core)::result::Result<", ts) or "Result<" in ts else (("Some", "0"),) if "Option<" in ts else ()


class NoMemo(dict):
    """every insertion is visited on every path to it"""

    def get(self, k, d=None):
        return d


def export(c, dom, roots, start):
    eng = Engine(c.P, c.R, dom)
    if c.id == "P27":
        eng.memo = NoMemo()
    seen = {}
    for b in roots:
        path = payload(b)
        fr = c.R.root(b)
        dom.seen = set()
        try:
            eng.profiled(lambda e: e.run(fr, 0, path, "ret", ((), frozenset())))
            outs = eng.run(fr, 0, path, "ret", (start, frozenset()))
        except Limit as e:
            c.undec("%s: %s" % (b.id, e))
            continue
        if not outs:
            c.undec("%s: the text returned here could not be reconstructed" % b.id)
        seen[b] = (set(dom.seen), outs)
    for k, (f, l) in eng.unknown.items():
        c.undec("%s in %s: %s" % (k[0], k[1], str(k[2])[:80]))
    return seen, eng


def run(c):
    P = c.P
    ex = [b for b in sorted(P.bodies.values(), key=lambda b: (b.file, b.line)) if b.crate == "ppt_rs" and b.kind != "closure" and b.pub
          and "String" in b.lty(0)["s"] and b.argc and C_base(b, 1).endswith("Presentation")]
    html = [b for b in ex if "html" in b.id.split("::")[-1]]
    mdx = [b for b in ex if re.search(r"markdown|_md\b|_md_", b.id.split("::")[-1])]
    c.floor("html_exporters", len(html), 2)
    c.floor("markdown_exporters", len(mdx), 2)
    hd, md = Html(), Markdown()
    hs, he = export(c, hd, html, xmldom.start())
    old = emit.DANGER, emit.lit_danger, emit.ESCAPE_CHAR
    try:
        emit.DANGER = MD | {"|", "\n", "\r", "&", '"', "'"}
        emit.lit_danger, emit.ESCAPE_CHAR = md_danger, "\\"
        ms, me = export(c, md, mdx, ("T", "^"))
    finally:
        emit.DANGER, emit.lit_danger, emit.ESCAPE_CHAR = old
    c.coverage["abstract_steps"] = he.steps + me.steps
    c.coverage["functions_visited"] = len(set(he.visited) | set(me.visited))
    if c.id == "P26":
        for kind, d in (("html", hd), ("md", md)):
            for v in d.viol.values():
                if v["rule"] == "unescaped":
                    us = [s for s in c.user_sources(v["v"]) if not origin(s).startswith("options.")]
                    if not us:
                        continue
                    c.violate("%s|%s" % (kind, origin(us[0]) if kind == "md" else v["sink"].split(" of ")[0] + "|" + origin(us[0])), v["detail"],
                              "%s:%s in %s" % (v["file"], v["line"], v["fn"]), v["path"])
                else:
                    c.violate("html|%s|%s" % (v["rule"], v["detail"]), v["detail"], "%s:%s in %s" % (v["file"], v["line"], v["fn"]), v["path"])
        for b, (sn, outs) in hs.items():
            for st, f in outs:
                if st[0] != "T" or [x for x in st[1] if not x[0].startswith("\0")]:
                    c.violate("html|unbalanced|" + C.short_fn(b.id), "the HTML ends inside <%s>" % (st[1][-1][0] if st[1] else st[2]), "%s:%s in %s" % (b.file, b.line, b.id))
        c.floor("html_insertions_checked", len(hd.obl.get("text-hole", ())) + len(hd.obl.get("attr-hole", ())), 8)
        c.floor("html_elements_checked", len(hd.obl.get("element", ())), 15)
        c.floor("markdown_insertions_checked", len(md.obl.get("text-hole", ())), 5)
        c.coverage["rule"] = ("no text reaches HTML with & < or the delimiting quote unescaped, nor Markdown text with \\ * _ [ ] ` # < > unescaped, "
                              "nor a Markdown heading with a line break, nor a table cell with a line break or |")
    else:
        n = 0
        for kind, res in (("html", hs), ("md", ms)):
            for b, (sn, outs) in res.items():
                got = {origin(s) for m, v in sn for s in c.user_sources(v)}
                c.coverage.setdefault("texts_found", {})[C.short_fn(b.id)] = sorted(got)
                for what, rx in TEXTS.items():
                    n += 1
                    if not any(re.search(rx, g) for g in got):
                        c.violate("missing|%s|%s" % (C.short_fn(b.id), what), "%s does not contain the %s of every slide" % (b.id.split("::")[-1], what)
                                  if what != "title" else "%s does not contain the title" % b.id.split("::")[-1], "%s:%s in %s" % (b.file, b.line, b.id))
        for kind, dom in (("html", hd), ("md", md)):
            sites = set()
            for v, stk in dom.sites:
                for x in c.user_sources(v):
                    o = origin(x)
                    if any(re.search(rx, re.sub(r"\{\w+\}", "", o)) for rx in TEXTS.values()):
                        sites.add((re.sub(r"\{\w+\}", "", o), stk))
            for b in {stk[0][0].body for o, stk in sites if stk}:
                mine = [(o, stk) for o, stk in sites if stk and stk[0][0].body is b]
                vis = looped(c, {fr for o, stk in mine for fr, x in stk}, Depend(P))
                c.coverage.setdefault("collections_visited", {})[C.short_fn(b.id)] = sorted(x for x in vis if x.startswith("pres"))
                for o in sorted({o for o, stk in mine}):
                    if o.endswith(".content"):      # taken by an index
                        o += "[]"
                    for m in re.finditer(r"\[\]", o):
                        if o[:m.end()] not in vis:
                            c.violate("partial|%s|%s" % (C.short_fn(b.id), o), "%s is written for only some of %s" % (o, o[:m.end()]), "%s:%s in %s" % (b.file, b.line, b.id))
                            break
            for o, b, line, why in conditional(c, sites):
                c.violate("conditional|%s|%s" % (kind, o), "whether %s is written %s" % (o, why), "%s:%s in %s" % (b.file, line, b.id))
        no = 0

        def src(st):
            return {x for x in st if isinstance(x, tuple)}
        for b in html + mdx:
            for o, (off, on) in options(c, Html if b in html else Markdown, xmldom.start() if b in html else ("T", "^"), b).items():
                no += 1
                where = "%s:%s in %s" % (b.file, b.line, b.id)
                if off == on:
                    c.violate("option|%s|%s" % (C.short_fn(b.id), o), "the option %s makes no difference to what %s writes" % (o, b.id.split("::")[-1]), where)
                elif o.startswith("include_") and not src(off) <= src(on) or "notes" in o and any(x[1].endswith(".notes") for x in src(off)):
                    c.violate("option|%s|%s" % (C.short_fn(b.id), o), "switching %s off does not leave something out of what %s writes, or adds to it" % (o, b.id.split("::")[-1]), where)
        c.floor("options_checked", no, 7)
        # loops over the content run over all of it
        D = Depend(P)
        loops = 0
        for i in sorted(P.reachable([b.id for b in html + mdx])):
            b = P.body(i)
            if b is None or b.crate != "ppt_rs" or not b.file.startswith(ex[0].file.rsplit("/", 1)[0]):
                continue
            loops += sum(1 for x in range(len(b.blocks)) if D.cyclic(b, x) and b.blocks[x]["t"][1] == "call" and (mir.callee(b.blocks[x]["t"]) or "").endswith("::next")) + len(c.R.guards(b))
            heads = any((mir.callee(t) or "").endswith("::first") for _, t in b.calls())
            for bi, t in b.calls():
                m = (mir.callee(t) or "").split("::")[-1]
                if m in ("skip", "take", "step_by", "skip_while", "take_while", "map_while", "truncate") and "iter" in (mir.callee(t) or "") + "iter" and not (m == "skip" and heads):
                    c.violate("partial|%s|%s" % (C.short_fn(b.id), m), "%s passes over only some of the elements (%s)" % (b.id.split("::")[-1], m), "%s:%s in %s" % (b.file, t[0], b.id))
            if D.breaks(b):
                c.violate("partial|%s|break" % C.short_fn(b.id), "%s can leave a loop over the content before its end" % b.id.split("::")[-1], "%s:%s in %s" % (b.file, b.line, b.id))
        c.floor("content_loops", loops, 6)
        c.floor("texts_required", n, 20)
        c.coverage["rule"] = "title, and for every slide its title, bullets, table cells, code and notes, are written into the export"
    c.explanation = ("abstract interpretation of every string-building path of the exporters (MIR, resolved callees) with an HTML lexer and a Markdown line "
                     "domain as text domains; escaping is derived from the replace calls on the path")
    c.assumptions += ["std formatting and string methods behave as documented", "code blocks and front matter of Markdown are not judged"]


EMPTY = {"is_empty", "len", "is_some", "is_none", "as_ref", "as_deref", "as_str", "as_slice", "iter", "deref", "next", "into_iter", "enumerate", "is_some_and",
         "is_none_or", "trim", "first", "last", "get", "bin:Eq", "bin:Ne", "bin:Gt", "bin:Lt", "bin:Ge", "bin:Le", "bin:BitAnd", "un:Not", "discr", "filter",
         "map", "peek", "peekable", "clone", "borrow", "map_or", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "as_bytes", "chars", "any", "all", "index",
         "split_first", "skip", "take", "zip", "rev", "and_then", "copied", "cloned", "to_string", "as_mut", "by_ref", "from", "into", "branch", "unwrap", "expect"}
FAIL = re.compile(r"Result<|ControlFlow<")


class Whether:
    """on what data it depends that a block of a frame is reached at all"""

    def __init__(self, c):
        self.c, self.R, self.D = c, c.R, Depend(c.P)

    def reach(self, b, x, stop):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y in seen or y in stop:
                continue
            seen.add(y)
            st.extend(b.succ(y))
        return seen

    def deciders(self, b, targets):
        """switch blocks of which some outcome can still reach a target in this round of the loop and another cannot"""
        key = ("whether", frozenset(targets))
        if key in b.cache:
            return b.cache[key]
        live = b.reach()
        heads = [x for x in live if b.blocks[x]["t"][1] == "call" and (mir.callee(b.blocks[x]["t"]) or "").endswith("::next") and self.D.cyclic(b, x)]
        heads += list(self.R.guards(b))
        out = []
        for w in sorted(live):
            t = b.blocks[w]["t"]
            if t[1] != "switch":
                continue
            fw = self.reach(b, w, ())
            # the heads of the loops the switch is in (an inner loop that follows it does not count)
            stop = {h for h in heads if h in fw and w not in self.reach(b, 0, {h})}
            can = [bool(self.reach(b, s, stop) & targets) for s in b.succ(w) if b.blocks[s]["t"][1] != "unreach"]
            if any(can) and not all(can):
                out.append(w)
        b.cache[key] = out
        return out

    def cond(self, fr, w):
        b = fr.body
        return self.R.operand(fr, w, len(b.blocks[w]["s"]), b.blocks[w]["t"][2])

    def walk(self, v):
        """(data read, operations applied) of a condition"""
        leaves, ops, seen, st = set(), set(), set(), [v]
        while st and len(seen) < 2000:
            x = st.pop()
            if x is None or x in seen:
                continue
            seen.add(x)
            if x.k in ("f", "elem", "chr"):
                r = x
                while r.k in ("f", "elem", "chr"):
                    r = r.a[0]
                if r.k == "arg":
                    leaves.add(x)
                else:
                    leaves.add(x)
                    st.append(r)
            elif x.k == "arg":
                leaves.add(x)
            elif x.k in ("loc", "phi"):
                self.defs(x.a[0], x.a[1], st)
            elif x.k == "app":
                y = self.R.inl(x)
                if y is not x:
                    st.append(y)
                else:
                    self.defs(x.a[0], 0, st)
            elif x.k == "ext":
                m = x.a[0].split("::")[-1]
                ops.add(m)
                a = x.a[1]
                if m in ("filter", "is_some_and", "is_none_or") and len(a) > 1 and "Option" in x.a[0]:
                    st.append(self.R.call_value(a[1], (self.R.pay(a[0]),), None))
                    a = a[:1]
                st.extend(a)
            elif x.k == "bin":
                ops.add("bin:" + x.a[0])
                for y, z in (x.a[1:], x.a[:0:-1]):
                    if y.k == "c" and y.a[0] == "float" and z.k != "c":
                        ops.add("compared with %s" % y.a[1])
                    if y.k == "c" and y.a[0] == "int" and z.k != "c" and int(y.a[1]) not in (0, 1):
                        ops.add("compared with %s" % y.a[1])
                    if z is x.a[1] and y.k == "c" and y.a[0] == "int" and (x.a[0], int(y.a[1])) in (("Gt", 1), ("Le", 1), ("Eq", 1), ("Ne", 1)):
                        ops.add("compared with 1")
                st.extend(x.a[1:])
            elif x.k == "un":
                ops.add("un:" + x.a[0])
                st.append(x.a[1])
            elif x.k in ("discr", "cast"):
                st.append(x.a[-1])
            elif x.k == "clo":
                cb = self.c.P.bodies.get(x.a[0])
                if cb is not None:
                    ops |= {(mir.callee(t) or "?").split("::")[-1] for _, t in cb.calls()}
                    ops |= {"field:" + f for f in fields_read(cb)}
                st.extend(x.a[1])
            elif x.k == "optalt":
                st.extend(y for y in x.a if hasattr(y, "k"))
            elif x.k == "c":
                if x.a[0] == "str" and x.a[1]:
                    ops.add("text")
            else:
                ops.add("?")
        return leaves, ops

    def defs(self, fr, l, st):
        full = self.R.defs(fr.body).info[l].full
        for d in full:
            st.append(self.R.defval(fr, d))
        if len(full) > 1:
            for d in full:
                st.extend(self.cond(fr, w) for w in self.deciders(fr.body, {d[0]}))


def fields_read(b):
    out = set()
    for blk in b.blocks:
        for s in blk["s"]:
            for p in places(s[2]):
                out |= {e[2] for e in p if e[0] == "f" and not str(e[2]).isdigit()}
        if blk["t"][1] == "call":
            for p in places(blk["t"][3]):
                out |= {e[2] for e in p if e[0] == "f" and not str(e[2]).isdigit()}
    return out


def places(o):
    if isinstance(o, dict):
        for k in "cm":
            if k in o:
                yield o[k][1]
    elif isinstance(o, list):
        if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], list):
            yield o[1]
        for x in o:
            yield from places(x)


def field_of(o):
    """the slide field (or table column) an origin belongs to"""
    m = re.search(r"\.slides(?:\{\w+\})*\[\]\.(\w+)", o)
    return m and m.group(1).replace("has_", "")


def unrelated(c, W, fr, w, o):
    """why the condition of switch w in fr must not decide whether the text with origin o is written, or None"""
    b = fr.body
    t = b.blocks[w]["t"]
    v = W.cond(fr, w)
    W.loophead = None
    if v.k == "discr" and v.a[0].k == "ext" and v.a[0].a[0].endswith("::next") and W.D.cyclic(b, w):
        W.loophead = v.a[0].a[1][0] if b.blocks[w]["t"][1] == "switch" else None
        return None         # the end of a loop over a collection
    if w in W.R.guards(b):
        g = W.R.counter(b, W.R.guards(b)[w])
        W.loophead = W.R.counted(fr, W.R.guards(b)[w], g[1])
        return None
    l = t[2].get("c") or t[2].get("m")
    for s in b.blocks[w]["s"]:
        if isinstance(s[2], list) and s[2][0] == "discr" and l and s[1][0] == l[0] and FAIL.search(b.lty(s[2][1][0])["s"]):
            return None
    return judge(W, v, o)


def judge(W, v, o):
    leaves, ops = W.walk(v)
    os = {origin(x) for x in leaves}
    os = {x for x in os if not x.startswith("?") and re.search(r"[.\[]", x)}
    if not os or all(x.startswith(("options", "opts", "self.options", "config")) for x in os):
        return None
    bad = [x for x in os if not x.startswith("options") and not re.search(r"\.slides\[\]$", x) and field_of(x) != field_of(o)]
    if bad:
        return "depends on %s" % sorted(bad)[0]
    odd = sorted(x for x in ops if x not in EMPTY and not x.startswith("field:") and not x.startswith("has_") and x != "?" and not x.startswith("bin:"))
    flds = sorted(x[6:] for x in ops if x.startswith("field:") and x[6:] not in o and x[6:] not in ("h_merge", "v_merge") and x[6:].replace("has_", "") not in o)
    if flds:
        return "depends on the field %s" % flds[0]
    tail = [x for x in os if field_of(x) == field_of(o) and field_of(x) and not o.startswith(x.rstrip("[]")) and not re.search(r"\.(has_\w+|[hv]_merge)$", x)]
    if tail:
        return "depends on %s" % sorted(tail)[0]
    if odd:
        return "depends on its content (%s)" % odd[0]
    return None


def conditional(c, sites):
    """texts whose writing depends on other data: (origin, frame, block) -> reason"""
    W = Whether(c)
    by = {}
    for o, stack in sites:
        for fr, b in dict(stack).items():      # per frame the innermost place: where the text is added, not where the result is handed on
            by.setdefault((o, fr), set()).add(b)
    n = 0
    for (o, fr), tg in sorted(by.items(), key=lambda x: (x[0][0], x[0][1].body.id)):
        for w in W.deciders(fr.body, tg):
            n += 1
            why = unrelated(c, W, fr, w, o)
            if why:
                yield o, fr.body, fr.body.blocks[w]["t"][0], why
            elif W.loophead:
                # the elements the loop runs over
                for clo, arg in c.R.filters(W.loophead):
                    if not o.startswith(re.sub(r"\{\w+\}", "", origin(arg))):
                        continue
                    n += 1
                    why = judge(W, c.R.call_value(clo, (arg,), None), o)
                    if why:
                        yield o, fr.body, fr.body.blocks[w]["t"][0], why
    c.coverage["conditions_on_written_text"] = c.coverage.get("conditions_on_written_text", 0) + n


def looped(c, frames, D):
    """collections every element of which is visited in some frame: loops, iterator closures, variable indices, join"""
    out = set()

    def add(v, tail=""):
        if v is None:
            return
        if v.k == "agg":
            for x in v.a[2]:
                add(x, tail)
            return
        o = re.sub(r"\{\w+\}", "", origin(v))
        out.add(o + tail)
        while o.endswith("[]"):
            o = o[:-2]
            out.add(o + "[]")
    for fr in frames:
        b = fr.body
        for bi, blk in enumerate(b.blocks):
            if blk.get("cl") or not D.cyclic(b, bi):
                continue
            for si, s in enumerate(blk["s"]):
                r = s[2] if len(s) > 2 else None
                p = r[2] if isinstance(r, list) and r[0] == "ref" else (r[1].get("c") or r[1].get("m")) if isinstance(r, list) and r[0] == "use" and isinstance(r[1], dict) else None
                for j, e in enumerate(p[1] if p else ()):
                    if e[0] == "i" and c.R.place(fr, bi, si, [e[1], []]).k != "c":
                        add(c.R.place(fr, bi, si, [p[0], p[1][:j]]), "[]")
        for bi, t in b.calls():
            m = (mir.callee(t) or "").split("::")[-1]
            if not t[3]:
                continue
            n = len(b.blocks[bi]["s"])
            if m == "next":
                if D.cyclic(b, bi):
                    add(c.R.elem(c.R.operand(fr, bi, n, t[3][0])))
            elif m in ("index", "get", "get_unchecked", "nth") and len(t[3]) > 1:
                i = c.R.operand(fr, bi, n, t[3][1])
                if i.k != "c" and D.cyclic(b, bi):
                    add(c.R.operand(fr, bi, n, t[3][0]), "[]")
            elif m in ("join", "concat", "extend", "collect", "sum", "for_each", "try_for_each", "fold", "map", "flat_map", "filter_map", "all", "any", "extend_from_slice", "clone"):
                a = c.R.operand(fr, bi, n, t[3][0 if m not in ("extend", "extend_from_slice") or len(t[3]) < 2 else 1])
                add(c.R.elem(a))
                add(a, "[]")
    return out


def C_base(b, i, key="s"):
    t = b.lty(i)
    while t["k"] in ("ref", "ptr") and t.get("a"):
        t = b.ty(t["a"][0])
    return (t.get(key) or "").split("<")[0]

"""P18 every content field and option takes effect in what is written."""
import re
import mir
import ctx as C
from depend import Depend, E
from c_model import base, structs
from c_export import origin
from conds import Conds, emits
IDS = ["P18"]

ROOTS = ["generator::slide_content::content::SlideContent", "generator::slide_content::presentation_settings::PresentationSettings",
         "generator::text::frame::TextFrame", "generator::table::builder::Table", "generator::slide_content::comments::SlideComments",
         "generator::slide_content::comments::CommentAuthorList", "generator::slide_content::sections::SectionManager", "parts::table::TablePart",
         "generator::text::rtl::RtlTextProps"]
OPTIONS = re.compile(r"(Options|Config|Settings)$")

# fields that carry no content of their own: derived flags, indexes, names and numbers of parts
PLUMBING = {"SlideContent.has_table", "SlideContent.has_chart", "SlideContent.has_image", "CommentAuthorList.name_to_id", "CommentAuthorList.next_id"}
# pinned by a test of the repository: PowerPoint strips the attribute this would set
PINNED = {"TableCell.wrap_text"}
# fields used by the package writer rather than by the element's XML writer
ELSEWHERE = {"Image.format", "Image.source", "Hyperlink.r_id", "Shape.id", "InkStroke.pen", "Video.source", "Video.format", "Video.options", "Video.poster",
             "Audio.source", "Audio.format", "Audio.options", "PptxTemplate.parts", "PptxTemplate.layout_count", "PptxTemplate.path",
             "SlideContent.videos", "SlideContent.audios"}
# an option that only refines, or is replaced by, another one
COND = {"Connector.start_shape_id": "a connection site", "Connector.end_shape_id": "a connection site",
        "Connector.arrow_size": "an arrow head", "Connector.start_site": "a connected shape", "Connector.end_site": "a connected shape",
        "GradientFill.direction": "a linear gradient", "ExtendedTextProps.superscript": "subscript excludes it", "TextFormat.superscript": "subscript excludes it",
        "BulletTextFormat.superscript": "subscript excludes it", "Chart.categories": "scatter and bubble charts have x values instead",
        "Shape.fill": "a gradient replaces it", "CellBorder.width": "no border", "CellBorder.color": "no border"}
# (field, field its effect needs or is replaced by)
PAIRS = {("start_shape_id", "start_site"), ("start_site", "start_shape_id"), ("end_shape_id", "end_site"), ("end_site", "end_shape_id"),
         ("bullets", "table"), ("content", "table"), ("bullets", "content"), ("content", "bullets"), ("valign", "background_color"),
         ("content", "xml_content"), ("text", "h_merge"), ("text", "v_merge"), ("h_merge", "v_merge"), ("v_merge", "h_merge"), ("superscript", "subscript")}
MERGED = ("TableCell", "TableCellPart")          # a cell covered by a merge shows nothing of its own
CACHED = ("SlideContent", "PresentationSettings", "PptxTemplate", "PrintSettings", "PresentationTheme")
EVERYWHERE = ("shapes", "images", "table", "charts", "connectors", "code_blocks", "transition", "layout")
TITLE = ("title", "title_size", "title_italic", "title_underline", "title_color")
BULLETS = ("bullets", "content", "bullet_style", "content_size", "content_bold", "content_italic", "content_underline", "content_color")


def short(t):
    return t.split("::")[-1]


def param(b, i):
    t = b.lty(i)
    while t["k"] == "ref":
        t = b.ty(t["a"][0])
    m = re.match(r"std::option::Option<&(?:'\w+ )?(.*)>$", t["s"])
    return (m.group(1) if m else t["s"]).split("<")[0]


def closure(c, A):
    body = next(b for b in c.P.bodies.values() if b.crate == "ppt_rs")
    adts = {k[7:] if k.startswith("crate::") else k: v for k, v in c.P.adts["ppt_rs"].items()}
    seen, st = set(), [r for r in ROOTS if r in adts]
    st += [k for k in adts if OPTIONS.search(k) and "::tests::" not in k and k.split("::")[0] in ("generator", "export", "import", "opc", "web2ppt", "api", "cli", "core")]
    while st:
        n = st.pop()
        if n in seen or n not in adts:
            continue
        seen.add(n)
        for v in adts[n]["v"]:
            for f in v["f"]:
                st += re.findall(r"[A-Za-z_]\w*(?:::\w+)+", body.ty(f[1])["s"])
    return {n for n in seen if n in A}


def places(x, out):
    if isinstance(x, dict):
        for k in ("m", "c"):
            if k in x:
                out.append(x[k])
    elif isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.append(x)
        else:
            for y in x:
                places(y, out)


def reads(c):
    """(struct, field) -> functions reading it, constructors, builder steps and accessors of the struct itself left out"""
    out = {}

    def strip(b, t):
        while t["k"] in ("ref", "ptr") and t.get("a"):
            t = b.ty(t["a"][0])
        return t

    for b in c.P.bodies.values():
        if b.crate != "ppt_rs" or b.derived:
            continue
        owner = b.id.split("::{closure")[0]
        ob = c.P.body(owner) or b
        mine = {base(ob, 0)["s"].split("<")[0]} if ob.locals else set()
        me = base(ob, 1)["s"].split("<")[0] if ob.argc and ob.names.get(1) == "self" else None
        for blk in b.blocks:
            if blk.get("cl"):
                continue
            ps = []
            for s in blk["s"]:
                if s[2][0] == "dead":
                    continue
                if s[2][0] == "ref":
                    ps.append(s[2][2])
                else:
                    places(s[2][1:], ps)
            t = blk["t"]
            if t[1] == "call":
                for a in t[3]:
                    places(a, ps)
            elif t[1] == "switch":
                places(t[2], ps)
            for l, projs in ps:
                ty = b.lty(l)
                for x in projs:
                    if x[0] == "f":
                        n = strip(b, ty)["s"].split("<")[0]
                        last = owner.split("::")[-1]
                        if n not in mine and not (n == me and (last in (x[2], "get_" + x[2]) or re.match(r"(is|has|set|with|add)_|new$|len$|default$", last))):
                            out.setdefault((n, x[2]), set()).add(owner)
                        ty = b.ty(x[4])
                    elif x[0] == "*":
                        ty = strip(b, ty)
    return out


PARTIAL = ("take", "skip", "step_by", "take_while", "skip_while", "map_while", "truncate", "filter")
POSITIVE = re.compile(r"^(=else|=1|=[1-9][\d,]*|(eq|Eq|Gt|Ge|Lt|Le)\w+|holds|is_emptyFalse|(?!is_empty)\w+True)$")


def leaf(o):
    return re.sub(r"(\{\w+\}|\[\])+$", "", o).split(".")[-1]


def conditions(c, model):
    """effects that hang on the value of another field, on an arbitrary value of the field itself, or that only some elements get"""
    P = c.P
    W = Conds(c)
    n = dict(conditions=0, iterations=0)
    for b in sorted(P.bodies.values(), key=lambda b: (b.file, b.line, b.id)):
        if b.kind == "closure" or b.derived or b.crate != "ppt_rs" or not b.argc or not b.file.startswith(("src/generator", "src/parts", "src/elements")):
            continue
        conv = base(b, 0)["s"].split("<")[0] in model and any(param(b, i) in model - {base(b, 0)["s"].split("<")[0]} for i in range(1, b.argc + 1))
        if not conv and not any("<" in s or '="' in s for s in b.strings()):
            continue
        fr = c.R.root(b)
        args = {b.names.get(i) for i in range(1, b.argc + 1)}
        fn = C.short_fn(b.id)
        by = {}
        for bi in sorted(b.reach()):
            if b.blocks[bi].get("cl") or not (emits(c, b, bi) or conv and b.blocks[bi]["t"][1] == "call" and c.P.body(mir.callee(b.blocks[bi]["t"]) or "") is not None):
                continue
            F = {(f, p, o) for f, p, o in W.facts(fr, bi) if {x.split(".")[0].rstrip("[]") for x in f} <= args}
            for f, p, o in F:
                n["conditions"] += 1
                by.setdefault((f, p), []).append((b.blocks[bi]["t"][0], {(g, q) for g, q, _ in F if g != f}, o))
        for (f, p), l in sorted(by.items(), key=str):
            where = "%s:%s in %s" % (b.file, l[0][0], b.id)
            name = sorted(f)[0]
            for o in {x for _, _, o in l for x in o}:
                if o.startswith("compared with ") and o != "compared with 1" and p[:2] in ("Gt", "Ge", "Lt", "Le", "Eq", "ho") and (len(f) == 1) and ("." not in o or name.endswith("[]")) and re.search(r"[.\[]", name):
                    c.violate("value|%s|%s" % (fn, leaf(name)), "whether %s takes effect depends on its value (%s)" % (name, o), where)
            if not POSITIVE.search(p):
                continue
            for g, q in sorted(set.intersection(*[x for _, x, _ in l]), key=str):
                if not all("." in x for x in f | g) or f & g or any(x != y and (x.startswith(y) or y.startswith(x)) for x in f for y in g):
                    continue
                if {"is_merged"} & {leaf(x) for x in f | g} or all((leaf(x), leaf(y)) in PAIRS for x in f for y in g):
                    continue
                if any(root(x) != root(y) for x in f for y in g):
                    continue
                c.violate("depends|%s|%s|%s" % (fn, leaf(name), leaf(sorted(g)[0])), "%s takes effect only depending on %s" % (name, sorted(g)[0]), where)
        # all of a collection takes effect
        calls = []
        for bi, t in b.calls():
            m = mir.callee(t) or ""
            n["iterations"] += m.endswith("::next")
            k = len(b.blocks[bi]["s"])
            last = m.split("::")[-1]
            if not t[3] or last not in PARTIAL + ("index",) or "ption" in m:
                continue
            o = origin(c.R.operand(fr, bi, k, t[3][0]))
            if re.split(r"[.{\[]", o)[0] not in args:
                continue
            a = c.R.operand(fr, bi, k, t[3][1]) if len(t[3]) > 1 else None
            if last == "index" and not (len(t[3]) > 1 and "ops::Range" in ty(b, t[3][1]) and re.search(r"Vec<|\[", ty(b, t[3][0])) and consts(a)):
                continue
            if last == "filter":
                v = c.R.call_value(a, (c.R.elem(c.R.operand(fr, bi, k, t[3][0])),), None)
                if v is None or not any(x.startswith("compared with ") and x != "compared with 1" for x in W.walk(v)[1]):
                    continue
            if last == "index":
                r = ty(b, t[3][1])
                parts = a.a[2] if a.k == "agg" else ()
                last, a = ("skip", parts[0]) if "RangeFrom<" in r and parts else ("take", parts[-1]) if "RangeTo" in r and parts else (last, a)
                if last == "index" and len(parts) == 2 and not consts(parts[0]):
                    last, a = "take", parts[1]
            calls.append((last, re.sub(r"\{\w+\}", "", o), a, t[0]))
        heads = any((mir.callee(t) or "").split("::")[-1] in ("first", "split_first") or (mir.callee(t) or "").endswith("::index") and len(t[3]) > 1
                    and (lambda v: v.k == "c" and str(v.a[1]) == "0")(c.R.operand(fr, bi, len(b.blocks[bi]["s"]), t[3][1])) for bi, t in b.calls())
        for m, o, a, line in calls:
            if m in ("take", "skip") and any(x[0] == ("skip" if m == "take" else "take") and x[1] == o and x[2] is a for x in calls):
                continue
            if m == "take" and a is not None and not consts(a):
                continue
            if m == "skip" and heads:
                continue
            c.violate("partial|%s|%s" % (fn, leaf(o)), "only some of %s take effect (%s)" % (o, m), "%s:%s in %s" % (b.file, line, b.id))
        if W.D.breaks(b):
            c.violate("partial|%s|break" % fn, "%s can leave a loop over its elements before the end" % b.id.split("::")[-1], "%s:%s in %s" % (b.file, b.line, b.id))
    c.floor("conditions_judged", n["conditions"], 40)


def ty(b, o):
    p = (o.get("m") or o.get("c")) if isinstance(o, dict) else None
    return b.lty(p[0])["s"] if p else ""


def root(x):
    return x.rsplit(".", 1)[0]


def consts(v):
    """a constant is part of the value"""
    seen, st = set(), [v]
    while st and len(seen) < 200:
        x = st.pop()
        if not hasattr(x, "k") or x in seen:
            continue
        seen.add(x)
        if x.k == "c" and x.a[0] in ("int", "float") and str(x.a[1]) not in ("0",):
            return True
        for y in x.a:
            if hasattr(y, "k"):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if hasattr(z, "k"))
    return False


def run(c):
    P = c.P
    A = structs(c)
    D, M = Depend(P, False, True), Depend(P, True)
    model = closure(c, A)
    c.floor("content_and_option_types", len(model), 30)
    R = reads(c)
    # ---- writers: functions over a content type that return or append text
    W, F = {}, {}
    n = dict(writers=0, fields=0, applied=0, read=0)
    for b in sorted(P.bodies.values(), key=lambda b: (b.file, b.line, b.id)):
        if b.kind == "closure" or b.derived or b.crate != "ppt_rs" or not b.argc or not b.file.startswith(("src/generator", "src/parts", "src/elements")):
            continue
        outs = []
        if re.search(r"String|Vec<u8>", b.lty(0)["s"]) and not b.lty(0)["s"].startswith("&"):
            outs.append("ret")
        outs += [i for i in range(1, b.argc + 1) if re.match(r"&mut (std::string::String|W$|std::vec::Vec<u8>)", b.lty(i)["s"])]
        if not outs:
            continue
        ts = [(i, param(b, i)) for i in range(1, b.argc + 1)]
        ts = [(i, t) for i, t in ts if t in model]
        if not ts:
            continue
        last = b.id.split("::")[-1]
        if not re.search(r"xml|render|generate|write|create", last) and not any("<" in s for s in b.strings()):
            continue
        s, m = D.summary(b), M.summary(b)
        if s is None or m is None:
            c.undec(C.short_fn(b.id))
            continue
        must = frozenset().union(s["ctl"], *[v for o in outs for v in s.get(o, {}).values()])
        may = frozenset().union(m["ctl"], *[v for o in outs for v in m.get(o, {}).values()])
        n["writers"] += 1
        for i, t in ts:
            fs = [f[0] for f in A[t]["v"][0]["f"]]
            has = lambda st, f: any(j == i and x in (f, "", "*") for j, x in st)
            ma = {f for f in fs if has(may, f)}
            full = {f for f in fs if has(must, f)}
            # returning early for an empty collection uses it: its size is all there is to it on that path
            W.setdefault(t, []).append((b, full | {f for f in ma if has(must, f + "#")}, ma))
            F.setdefault(t, []).append((b, full, ma))
    writers = {b.id for w in W.values() for b, _, _ in w}
    for t in sorted(model):
        for f in [f[0] for f in A[t]["v"][0]["f"]]:
            k = "%s.%s" % (short(t), f)
            if k in PLUMBING or k in PINNED:
                continue
            n["fields"] += 1
            where = "%s in %s" % (f, t)
            if not R.get((t, f)):
                c.violate("unread|" + k, "%s is never read by the code that produces output" % k, where)
                continue
            n["read"] += 1
            if t not in W or k in ELSEWHERE or OPTIONS.search(t) and t not in W:
                continue
            if not any(f in ma for _, _, ma in W[t]):
                if R[(t, f)] & writers:
                    n["applied"] += 1
                    continue
                c.violate("unused|" + k, "%s does not influence the XML of any writer of %s" % (k, short(t)), where)
                continue
            n["applied"] += 1
            if short(t) in CACHED or short(t) in MERGED and any(f in mu for _, mu, _ in W[t]):
                continue
            if short(t) in MERGED or k in COND:
                continue
            if not any(f in mu for _, mu, _ in W[t]):
                c.violate("conditional|" + k, "%s influences the XML of %s on some paths only" % (k, short(t)), where)
                continue
            for b, mu, ma in W[t]:
                if b.pub and f in ma and f not in mu:
                    c.violate("conditional|%s|%s" % (k, C.short_fn(b.id)), "%s influences what %s writes on some paths only" % (k, b.id.split("::")[-1]),
                              "%s:%s in %s" % (b.file, b.line, b.id))
    # ---- slides: what every layout shows
    sc = next((t for t in W if short(t) == "SlideContent"), None)
    slides = [(b, mu, ma) for b, mu, ma in F.get(sc, []) if {"shapes", "images", "connectors", "charts"} <= ma and base(b, 0)["s"] == "std::string::String"]
    c.floor("slide_writers", len(slides), 4)
    for b, mu, ma in slides:
        fn = C.short_fn(b.id)
        where = "%s:%s in %s" % (b.file, b.line, b.id)
        top = "transition" in ma
        for f in EVERYWHERE:
            if f in ("transition", "layout") and not top:
                continue
            if f not in mu:
                c.violate("layout|%s|%s" % (fn, f), "%s leaves out the slide's %s on some path" % (b.id.split("::")[-1], f), where)
        if not top and "title" in ma:
            for f in TITLE:
                if f not in mu:
                    c.violate("layout|%s|%s" % (fn, f), "%s shows a title but does not always apply %s" % (b.id.split("::")[-1], f), where)
        if not top and "bullets" in ma:
            for f in BULLETS:
                if f not in ma:
                    c.violate("layout|%s|%s" % (fn, f), "%s shows bullets but does not apply %s" % (b.id.split("::")[-1], f), where)
    conditions(c, model)
    for k, v in n.items():
        c.floor(k + "_checked", v, {"writers": 40, "fields": 200, "applied": 120, "read": 180}[k])
    c.coverage["rule"] = "every content field is read by output code, is in the may-dependency of a writer of its type, and in the must-dependency of the writers that use it"
    c.explanation = ("on MIR: reads of each field of the content and option types outside their own constructors, steps and accessors, and a fixpoint giving for every "
                     "function that writes text from a content type the fields its output depends on (on every path / on some path, control dependence included)")
    c.assumptions += ["a branch on a field counts as using it; loops are taken to run and to take each of their branches for some element",
                      "fields in COND, MERGED, PINNED and ELSEWHERE (with reasons) are judged by the weaker rules only"]

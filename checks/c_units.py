"""P20 measurements are converted and written with the factor and on the axis their unit and name call for."""
import re
from fractions import Fraction as F
import mir
import xmldom
import linear
from linear import deps, show, alts, num, fieldof
from value import V, pretty
IDS = ["P20"]

INCH, CM, PT, PX, DEG = 914400, 360000, 12700, 9525, 60000
SLIDE_W, SLIDE_H = 9144000, 6858000

# functions that are unit conversions: suffix of the path -> (field of the result or "", source, factor)
CONVERSIONS = {
    "prelude::inches": INCH, "prelude::cm": CM, "prelude::pt": PT, "shapes::inches_to_emu": INCH, "shapes::cm_to_emu": CM,
    "shapes::emu_to_inches": F(1, INCH), "Position::x_inches": F(1, INCH), "Position::y_inches": F(1, INCH),
    "Size::width_inches": F(1, INCH), "Size::height_inches": F(1, INCH), "font_sizes::to_emu": 100,
}
DIMENSION = {"Emu": 1, "Inches": INCH, "Cm": CM, "Pt": PT}
HORIZ, VERT = {"x", "width", "cx", "left", "right", "start_x", "end_x", "w"}, {"y", "height", "cy", "top", "bottom", "start_y", "end_y", "h"}
GEO = HORIZ | VERT
ALIAS = {"diameter": ("width", "height"), "size": ("width", "height")}


def numeric(s):
    return s in ("f64", "f32", "u32", "i32", "u64", "i64", "usize", "u16", "u8", "isize")


def strip(v):
    while v[0] == "adt" and v[2] in ("Some", "Ok"):
        v = fieldof(v, "0")
    if v[0] == "alt":
        xs = [x for x in v[1] if x[0] == "adt" and x[2] in ("Some", "Ok")]
        if len(xs) == 1:
            return strip(xs[0])
    return v


def leaves(v, path=(), d=0):
    """(field path, value) of the numeric leaves of a struct value"""
    v = strip(v)
    if v[0] == "adt" and (v[1] == "?" or v[2] == v[1].split("::")[-1] or not v[2]) and d < 5:
        for k, x in v[4]:
            yield from leaves(x, path + (k,), d + 1)
    else:
        yield path, v


# ---------------------------------------------------------------- conversions and constructors
def conversions(c, L):
    n = 0
    for b in sorted(c.P.bodies.values(), key=lambda b: b.id):
        if b.crate != "ppt_rs" or b.derived or "::tests" in b.id or "{closure" in b.id:
            continue
        ps = [b.names.get(i) or "_%d" % i for i in range(1, b.argc + 1)]
        short = "::".join(b.id.split("::")[-2:])
        want = CONVERSIONS.get(short)
        if want is not None:
            r, _ = L.run(b, [("sym", p) for p in ps])
            n += 1
            x = num(strip(r))
            src = short.split("::")[-1].split("_")[0]
            if x is None or x[1] != 0 or len(x[2]) != 1 or x[2][0][1] != want or \
                    x[2][0][0] not in (ps[0], "self." + src):
                c.violate("conversion|%s" % short, "%s yields %s, not its argument times %s" % (short, show(r), want), b.where())
        if b.id.endswith("Dimension::to_emu") or b.id.endswith("Dimension::to_emu_x") or b.id.endswith("Dimension::to_emu_y"):
            n += dimension(c, L, b)
        if re.search(r"GradientDirection::(to_)?angle$", b.id):
            n += directions(c, L, b)
        m = re.search(r"Dimension::(inches|cm|pt|ratio|emu|percent)$", b.id)
        if m:
            n += 1
            r, _ = L.run(b, [("sym", p) for p in ps])
            k = F(1, 100) if m.group(1) == "percent" else 1
            var = "Ratio" if m.group(1) == "percent" else m.group(1).capitalize()
            x = num(fieldof(r, "0")) if r[0] == "adt" else None
            if r[0] == "adt" and (r[2] != var or x is None or x[1:] != (0, ((ps[0], F(k)),))):
                c.violate("conversion|Dimension::%s" % m.group(1), "Dimension::%s(v) is %s" % (m.group(1), show(r)), b.where())
    return n


def dimension(c, L, b):
    a = c.P.adts["ppt_rs"].get("crate::core::dimension::Dimension")
    if not a:
        return 0
    n = 0
    for var in a["v"]:
        val = ("adt", "crate::core::dimension::Dimension", var["n"], None, (("0", ("sym", "v")),))
        r, _ = L.run(b, [val, ("lin", F(SLIDE_W), ())][:b.argc])
        want = DIMENSION.get(var["n"])
        if want is None:
            want = SLIDE_H if b.id.endswith("_y") else SLIDE_W
        n += 1
        x = num(r)
        if x is None or x[1] != 0 or x[2] != (("v", F(want)),):
            if x is None and r[0] not in ("alt",):
                c.undec("%s of %s: %s" % (b.id.split("::")[-1], var["n"], show(r)))
                continue
            c.violate("dimension|%s|%s" % (b.id.split("::")[-1], var["n"]),
                      "Dimension::%s(v).%s is %s, not v times %s" % (var["n"], b.id.split("::")[-1], show(r), want), b.where())
    return n


def coordinates(c, L):
    """functions that return a (horizontal, vertical) pair computed from named coordinates"""
    n = 0
    for b in sorted(c.P.bodies.values(), key=lambda b: b.id):
        if b.crate != "ppt_rs" or b.derived or "::tests" in b.id or "{closure" in b.id or not b.pub:
            continue
        m = re.fullmatch(r"\((\w+), (\w+)\)", b.lty(0)["s"])
        if not m or not all(numeric(x) for x in m.groups()):
            continue
        short = "::".join(b.id.split("::")[-2:])
        r, _ = L.run(b, [("sym", b.names.get(i) or "_%d" % i) for i in range(1, b.argc + 1)])
        for i, (own, other, axis) in enumerate(((HORIZ, VERT, SLIDE_W), (VERT, HORIZ, SLIDE_H))):
            v = fieldof(strip(r), str(i))
            for x in alts(v):
                for d in sorted(deps(x)):
                    words = set(re.split(r"[^a-z]+", d.split("@")[0].lower()))
                    if not words & (own | other):
                        continue
                    n += 1
                    if words & other and not words & own:
                        c.violate("coordinates|%s|%d" % (short, i), "%s: its %s depends on %s" % (short, ("first", "second")[i], d.split("@")[0]), b.where())
                l = num(x)
                if l is not None and l[1] == 0 and len(l[2]) == 1 and "@" in l[2][0][0]:
                    k = l[2][0][0].split("@")[1].split(".")[0]
                    if k in DIMENSION or k == "Ratio":
                        n += 1
                        if l[2][0][1] != DIMENSION.get(k, axis):
                            c.violate("coordinates|%s|%d|%s" % (short, i, k), "%s turns a %s into %s times its value, not %s" % (short, k, l[2][0][1], DIMENSION.get(k, axis)), b.where())
    return n


ANGLES = {"Horizontal": 0, "Vertical": 90, "DiagonalDown": 45, "DiagonalUp": 315}


def directions(c, L, b):
    t = b.lty(1)
    while t["k"] == "ref":
        t = b.ty(t["a"][0])
    a = c.P.adts["ppt_rs"].get(c.P.resolve_id(b.crate, t["d"]) if t["k"] == "adt" else "")
    if not a:
        return 0
    n = 0
    for var in a["v"]:
        val = ("adt", c.P.resolve_id(b.crate, t["d"]), var["n"], None, (("0", ("sym", "degrees")),) if var["f"] else ())
        r, _ = L.run(b, [val])
        x = num(r)
        if x is None:
            c.undec("angle of %s: %s" % (var["n"], show(r)))
            continue
        n += 1
        ok = x[1:] == (0, (("degrees", F(DEG)),)) if var["f"] else var["n"] not in ANGLES or x[1:] == (ANGLES[var["n"]] * DEG, ())
        if not ok:
            c.violate("angle|%s|%s" % ("::".join(b.id.split("::")[-3:]), var["n"]), "the angle of %s is %s sixty-thousandths of a degree" % (var["n"], show(r)), b.where())
    return n


def constructors(c, L):
    """positions and sizes handed to a function that returns, or changes, something with fields of those names"""
    n, seen = 0, {}
    for b in sorted(c.P.bodies.values(), key=lambda b: b.id):
        if b.crate != "ppt_rs" or b.derived or "::tests" in b.id or "{closure" in b.id or not (b.pub or b.trait):
            continue
        ps = [b.names.get(i) or "_%d" % i for i in range(1, b.argc + 1)]
        tys = {}
        for i, p in enumerate(ps):
            t = b.lty(i + 1)
            while t["k"] == "ref":
                t = b.ty(t["a"][0])
            tys[p] = t["s"]
        geo = [p for p in ps if (p in GEO or p in ALIAS) and (numeric(tys[p]) or tys[p].endswith("Dimension"))]
        if not geo:
            continue
        r, outs = L.run(b, [("sym", p) for p in ps])
        if ps[0] == "self" and b.lty(1)["k"] == "ref":
            r = outs[0]
        elif r[0] == "ref":
            r = outs[r[1] - 1]
        fields = {}
        for path, v in leaves(r):
            if path:
                fields.setdefault(path[-1], []).append((path, v))
        fn = b.id.split("::")[-1]
        short = re.sub(r"<.*?::(\w+) as .*>", r"\1", b.id)
        short = "::".join(short.split("::")[-2:])
        for p in geo:
            targets = [p] if p in fields else [f for f in ALIAS.get(p, ()) if f in fields]
            for f in targets:
                for path, v in fields[f]:
                    if v[0] == "sym" and v[1] == "self." + ".".join(path):
                        continue
                    n += 1
                    seen.setdefault(short, []).append(f)
                    expect(c, b, fn, short, p, tys[p], f, v, path)
    c.coverage["placing_functions"] = len(seen)
    return n


def expect(c, b, fn, short, p, ty, f, v, path):
    axis = SLIDE_W if f in HORIZ else SLIDE_H
    where = b.where()
    if ty.endswith("Dimension"):
        got = {}
        for x in alts(v):
            l = num(x)
            if l is None or l[1] != 0 or len(l[2]) != 1 or not l[2][0][0].startswith(p + "@"):
                if l is not None and not any(a.startswith(p) for a, _ in l[2]):
                    c.violate("placed|%s|%s" % (short, f), "%s stores %s in %s instead of its argument %s" % (short, show(x), f, p), where)
                else:
                    c.undec("%s: %s is %s" % (short, f, show(x)))
                return
            got[l[2][0][0].split("@")[1].split(".")[0]] = l[2][0][1]
        for k, x in sorted(got.items()):
            want = DIMENSION.get(k, axis)
            if x != want:
                c.violate("placed|%s|%s|%s" % (short, f, k), "%s stores %s times a %s in %s, not %s times" % (short, x, k, f, want), where)
        return
    l = num(v)
    if l is None:
        if p not in {d.split("@")[0].split(".")[0] for d in deps(v)} and "?" not in deps(v):
            c.violate("placed|%s|%s" % (short, f), "%s does not store its argument %s in %s but %s" % (short, p, f, show(v)), where)
        else:
            c.undec("%s: %s is %s" % (short, f, show(v)))
        return
    atoms = [a for a, _ in l[2]]
    if atoms != [p] or l[1] != 0:
        if p in atoms:
            c.undec("%s: %s is %s" % (short, f, show(v)))         # laid out relative to something
        else:
            c.violate("placed|%s|%s" % (short, f), "%s stores %s in %s, not its argument %s" % (short, show(v), f, p), where)
        return
    k = l[2][0][1]
    if ty in ("f64", "f32"):
        words = re.split(r"[^a-z]+", fn.lower())
        want = {1} if k == 1 else {CM} if "cm" in words else {PT} if "pt" in words else {axis} if "ratio" in words else {INCH}
        if k == 1 and not field_is_float(b, path):
            want = {INCH}
    else:
        want = {1}
    if k not in want:
        c.violate("placed|%s|%s" % (short, f), "%s stores %s times %s in %s, not %s times" % (short, k, p, f, sorted(want)[0]), where)


def field_is_float(b, path):
    """whether the field at the end of path, from the result (or the receiver), is a floating point number"""
    P = b.prog
    for start in (0, 1):
        if start > b.argc:
            break
        t, ok = b.lty(start), True
        for f in path:
            while t["k"] == "ref" or t["k"] == "adt" and t.get("a") and t["d"].split("::")[-1] in ("Option", "Result", "Box"):
                t = b.ty(t["a"][0])
            a = P.adts["ppt_rs"].get(P.resolve_id(b.crate, t["d"])) if t["k"] == "adt" else None
            x = next((x for v in a["v"] for x in v["f"] if x[0] == f), None) if a else None
            if x is None:
                ok = False
                break
            t = b.ty(x[1])
        if ok:
            while t["k"] == "adt" and t.get("a") and t["d"].endswith("Option"):
                t = b.ty(t["a"][0])
            return t["s"] in ("f64", "f32")
    return True


def pixels(c, L):
    """image sizes measured in pixels become EMU at 96 dpi"""
    n = 0
    rd = Lin(c.R, c.P, L)
    img = next((x for x in c.P.adts["ppt_rs"] if x.endswith("generator::images::Image")), None)
    if not img:
        return 0
    names = [f[0] for f in c.P.adts["ppt_rs"][img]["v"][0]["f"]]
    for b in sorted(c.P.bodies.values(), key=lambda b: b.id):
        if b.crate != "ppt_rs" or "{closure" in b.id or "::tests" in b.id:
            continue
        if not any("read_image_dimensions" in (mir.callee(t) or "") for _, t in b.calls()):
            continue
        fr = c.R.root(b)
        for bi in b.reach():
            for si, st in enumerate(b.blocks[bi]["s"]):
                r = st[2]
                if not (isinstance(r, list) and r and r[0] == "agg" and isinstance(r[-1], list) and len(r[-1]) == len(names)):
                    continue
                for f in ("width", "height"):
                    v = c.R.operand(fr, bi, si, r[-1][names.index(f)])
                    alt = rd.of(v)
                    if not alt:
                        c.undec("pixels: %s is %s" % (f, pretty(v)[:80]))
                        continue
                    for k0, t in alt:
                        n += 1
                        if k0 != 0 or len(t) != 1 or list(t.values()) != [PX] or next(iter(t)) != ("0" if f == "width" else "1") and next(iter(t)) in ("0", "1"):
                            c.violate("pixels|%s|%s" % ("::".join(b.id.split("::")[-2:]), f),
                                      "%s takes %s as its %s, not the measured %s times %d EMU a pixel" % (b.id.split("::")[-1], pretty(v)[:80], f, f, PX), b.where())
    return n


# ---------------------------------------------------------------- what is written
SIDE = {"l": "left", "r": "right", "t": "top", "b": "bottom"}
X, Y = {"x", "start_x", "end_x"}, {"y", "start_y", "end_y"}
W, H = {"width", "cx", "start_x", "end_x"}, {"height", "cy", "start_y", "end_y"}
# (element, attribute) -> {last name of the source: factors}
RULES = {
    ("a:off", "x"): (X, 1), ("a:off", "y"): (Y, 1), ("a:ext", "cx"): (W, 1), ("a:ext", "cy"): (H, 1),
    ("a:bodyPr", "lIns"): ({"margin_left"}, 1), ("a:bodyPr", "rIns"): ({"margin_right"}, 1),
    ("a:bodyPr", "tIns"): ({"margin_top"}, 1), ("a:bodyPr", "bIns"): ({"margin_bottom"}, 1),
    ("a:tcPr", "marL"): ({"left"}, 1), ("a:tcPr", "marR"): ({"right"}, 1), ("a:tcPr", "marT"): ({"top"}, 1), ("a:tcPr", "marB"): ({"bottom"}, 1),
    ("a:srcRect", "l"): ({"left"}, 100000), ("a:srcRect", "r"): ({"right"}, 100000),
    ("a:srcRect", "t"): ({"top"}, 100000), ("a:srcRect", "b"): ({"bottom"}, 100000),
    ("a:rPr", "sz"): ({"font_size", "title_size", "content_size", "title_font_size", "content_font_size"}, 100),
    ("a:xfrm", "rot"): ({"rotation"}, DEG), ("a:gs", "pos"): ({"position"}, 1), ("a:gridCol", "w"): ({"column_widths", "col_widths"}, 1),
    ("a:tr", "h"): ({"height"}, 1), ("a:ln", "w"): ({"width"}, 1),
    ("a:lnL", "w"): ({"left.width"}, 1), ("a:lnR", "w"): ({"right.width"}, 1), ("a:lnT", "w"): ({"top.width"}, 1), ("a:lnB", "w"): ({"bottom.width"}, 1),
    ("a:pPr", "lvl"): ({"level"}, 1), ("a:tc", "gridSpan"): ({"grid_span", "col_span"}, 1), ("a:tc", "rowSpan"): ({"row_span"}, 1),
    ("a:stCxn", "id"): ({"start_shape_id"}, 1), ("a:endCxn", "id"): ({"end_shape_id"}, 1),
    ("p:pos", "x"): ({"x"}, 1), ("p:pos", "y"): ({"y"}, 1), ("p:cm", "idx"): ({"index"}, 1), ("p:cm", "authorId"): ({"author_id"}, 1),
    ("p:cmAuthor", "id"): ({"id"}, 1), ("p:cmAuthor", "clrIdx"): ({"color_index"}, 1),
    ("p:sldRg", "st"): ({"start"}, 1), ("p:sldRg", "end"): ({"end"}, 1),
    ("ink:brush", "width"): ({"width"}, 1),
}
# the transform of elements::position keeps its rotation in sixty-thousandths of a degree already
STORED = {("a:xfrm", "rot"): "Transform"}


class UnitsDomain(xmldom.XmlDomain):
    def num(self, eng, st, v, spec):
        if st[0] == "Q":
            f = eng.where()
            self.seen_numbers.setdefault((st[2], st[3]), {}).setdefault(v, f)
        return xmldom.XmlDomain.num(self, eng, st, v, spec)


class Lin:
    """affine reading of an emitted value: list of alternatives (constant, {source: coefficient}) or None"""

    def __init__(self, R, P, L):
        self.R, self.P, self.L = R, P, L

    def of(self, v, d=0):
        if d > 24 or not isinstance(v, V):
            return None
        k, a = v.k, v.a
        if k == "c":
            try:
                return [(F(str(a[1])), {})]
            except (ValueError, ZeroDivisionError):
                return []
        if k == "cast":
            return self.of(a[1], d + 1)
        if k == "bin":
            op = a[0].replace("WithOverflow", "").replace("Unchecked", "")
            x, y = self.of(a[1], d + 1), self.of(a[2], d + 1)
            if x is None or y is None:
                return None
            out = []
            for c1, t1 in x:
                for c2, t2 in y:
                    if op in ("Add", "Sub"):
                        s = 1 if op == "Add" else -1
                        t = dict(t1)
                        for n, q in t2.items():
                            t[n] = t.get(n, 0) + s * q
                        out.append((c1 + s * c2, {n: q for n, q in t.items() if q}))
                    elif op == "Mul" and (not t1 or not t2):
                        (cc, tt), k2 = ((c1, t1), c2) if not t2 else ((c2, t2), c1)
                        out.append((cc * k2, {n: q * k2 for n, q in tt.items() if q * k2}))
                    elif op == "Div" and not t2 and c2:
                        out.append((c1 / c2, {n: q / c2 for n, q in t1.items()}))
                    else:
                        return None
            return out[:16]
        if k == "agg" and a[1] in ("Some", "Ok") and len(a[2]) == 1:
            return self.of(a[2][0], d + 1)
        if k == "agg" and a[1] == "None":
            return []
        if k in ("alt", "optalt"):
            out = []
            for x in (a[0] if isinstance(a[0], tuple) else a):
                r = self.of(x, d + 1)
                if r is None:
                    return None
                out += r
            return out
        if k == "ext":
            last = a[0].split("::")[-1]
            args = a[1]
            if last in ("unwrap_or", "min", "max", "or") and len(args) == 2:
                x, y = self.of(args[0], d + 1), self.of(args[1], d + 1)
                if x is None or y is None:
                    return None
                if last in ("min", "max"):
                    y = [z for z in y if z[1]] if any(z[1] for z in x) else y
                return x + y
            if last in ("unsigned_abs", "abs", "round", "floor", "ceil", "trunc", "clamp", "from", "into", "unwrap_or_default", "unwrap", "clone", "copied", "cloned", "as_ref") and args:
                return self.of(args[0], d + 1)
            if last == "abs_diff" and len(args) == 2:
                x, y = self.of(args[0], d + 1), self.of(args[1], d + 1)
                return None if x is None or y is None else [(F(0), {**p[1], **q[1]}) for p in x for q in y]
            if last in ("map", "map_or") and len(args) >= 2 and isinstance(args[-1], V) and args[-1].k in ("clo", "fn"):
                r = self.R.call_value(args[-1], (args[0],), None)
                x = self.of(r, d + 1) if isinstance(r, V) else None
                if last == "map_or" and x is not None:
                    y = self.of(args[1], d + 1)
                    return None if y is None else x + y
                return x
            if last in ("saturating_mul", "wrapping_mul", "checked_mul", "saturating_add", "saturating_sub", "mul", "add", "sub", "div") and len(args) == 2:
                op = {"m": "Mul", "a": "Add", "s": "Sub", "d": "Div"}[last.split("_")[-1][0]]
                from value import mk
                return self.of(mk("bin", op, args[0], args[1]), d + 1)
            return None
        if k == "app":
            for x in (self.R.inl(v), self.R.predval(v)):
                if x is not None and x is not v:
                    return self.of(x, d + 1)
            return self.summary(v, d)
        n = self.name(v)
        return [(F(0), {n: F(1)})] if n else None

    def summary(self, v, d):
        """result of a function with several paths, from its affine summary"""
        f = v.a[0]
        b = f.body
        r, _ = self.L.run(b, [("sym", "#%d" % i) for i in range(b.argc)])
        out = []
        for x in alts(strip(r)):
            l = num(x)
            if l is None:
                return None
            t = {}
            for a, q in l[2]:
                m = re.match(r"#(\d+)(.*)$", a)
                if not m:
                    return None
                base = f.args[int(m.group(1))]
                if m.group(2):
                    n = re.sub(r"@\w+|\.0\b", "", m.group(2)).strip(".")
                else:
                    y = self.of(base, d + 1) if base is not None else None
                    if not y or len(y) != 1 or y[0][0] or len(y[0][1]) != 1 or list(y[0][1].values()) != [1]:
                        return None
                    n = next(iter(y[0][1]))
                t[n] = t.get(n, 0) + q
            out.append((l[1], t))
        return out

    def name(self, v):
        p = pretty(v)
        p = re.sub(r"\[\]", "", p)
        if re.search(r"[({|]", p) and not re.search(r"\)\.[\w.]+$", p):
            return None
        return p.split(")")[-1].lstrip(".") if ")" in p else p


def pairs(c):
    """a (edge letter, value) pair names the edge the value comes from"""
    n = 0
    for b in sorted(c.P.bodies.values(), key=lambda b: b.id):
        if b.crate != "ppt_rs" or b.derived or "::tests" in b.id:
            continue
        fr = None
        for bi in b.reach():
            for si, st in enumerate(b.blocks[bi]["s"]):
                r = st[2]
                if not (isinstance(r, list) and r and r[0] == "agg"):
                    continue
                ops = [o for o in r[-1] if isinstance(o, dict)] if isinstance(r[-1], list) else []
                if len(ops) != 2:
                    continue
                fr = fr or c.R.root(b)
                x, y = (c.R.operand(fr, bi, si, o) for o in ops)
                if x.k != "c" or x.a[1] not in SIDE:
                    continue
                s = set(re.findall(r"\b(left|right|top|bottom)\b", pretty(y)))
                if len(s) != 1:
                    continue
                n += 1
                if s != {SIDE[x.a[1]]}:
                    c.violate("edge|%s|%s" % (b.id.split("::")[-1], x.a[1]), "%s writes the %s edge as %s" % (b.id.split("::")[-1], s.pop(), x.a[1]), "%s:%s in %s" % (b.file, st[0], b.id))
    return n


def matches(n, names):
    return any(n == x or n.endswith("." + x) for x in names)


def emission(c, L):
    UnitsDomain.seen_numbers = {}
    c.xml_analysis(dom_class=UnitsDomain)
    rd = Lin(c.R, c.P, L)
    n = und = 0
    rules = set()
    for key in sorted(UnitsDomain.seen_numbers):
        rule = RULES.get(key)
        if not rule:
            continue
        names, factor = rule
        rules.add("%s@%s" % key)
        for v, w in UnitsDomain.seen_numbers[key].items():
            alt = rd.of(v)
            where = "%s:%s" % (w[0].file, w[1])
            fn = w[0].id.split("::{")[0].split("::")[-1]
            if alt is None:
                und += 1
                c.undec("%s@%s <- %s" % (key + (pretty(v)[:90],)))
                continue
            bad = []
            for k0, t in alt:
                if not t:
                    continue
                srcs = list(t)
                if len(srcs) == 1 and t[srcs[0]] == factor and k0 == 0 and (matches(srcs[0], names) or free(srcs[0])):
                    continue
                if key == ("a:rPr", "sz") and len(srcs) == 1 and matches(srcs[0], {"props.size", "self.size"}) and t[srcs[0]] == 1 and k0 == 0:
                    continue                 # run properties handed over in hundredths of a point
                if len(srcs) == 2 and factor == 1 and k0 == 0 and all(matches(s, names) for s in srcs) and key[1] in ("cx", "cy"):
                    continue
                if len(srcs) == 1 and free(srcs[0]) and t[srcs[0]] == 1:
                    continue
                if key in STORED and STORED[key] in w[0].id and t == {"self.rotation": 1} and k0 == 0:
                    continue
                bad.append((k0, t))
            n += 1
            if bad and v.k == "alt" and len(bad) < len([a for a in alt if a[1]]):
                continue                     # one of several alternatives that belong to several attributes
            for k0, t in bad[:1]:
                c.violate("written|%s@%s|%s" % (key + (fn,)),
                          "%s@%s is %s%s, not %s times %s" % (key + (("%s + " % k0 if k0 else ""), " + ".join("%s*%s" % (q, s) for s, q in sorted(t.items())),
                                                                    factor, " or ".join(sorted(names)))), where)
    c.coverage["attributes_with_a_rule_seen"] = sorted(rules)
    return n, und, len(rules)


def free(s):
    """a bare parameter of a fragment producer, already in the file's unit"""
    return "." not in s


def run(c):
    L = linear.Linear(c.P)
    n1 = conversions(c, L)
    n2 = constructors(c, L)
    c.coverage["coordinate_pairs_checked"] = coordinates(c, L)
    n3 = pixels(c, L)
    n4, und, nr = emission(c, L)
    c.floor("unit_conversions_checked", n1, 10)
    c.floor("stored_measurements_checked", n2, 60)
    c.coverage["edge_pairs_checked"] = pairs(c)
    c.coverage["pixel_sizes_checked"] = n3
    c.floor("written_measurements_checked", n4, 50)
    c.floor("attribute_rules_exercised", nr, 20)
    c.coverage["written_measurements_undecided"] = und
    c.coverage["functions_summarised"] = len(L.functions)
    c.coverage["rule"] = ("affine data flow over MIR: a conversion is its argument times the factor of its unit, a constructor stores each position or size argument in the field of "
                          "that name times the factor of the unit it takes, and each geometric attribute is the field it denotes times the factor of the file format")
    c.explanation = "affine (constant + coefficient * input) abstract interpretation of MIR for conversions and constructors, and of the values emitted into geometric attributes"

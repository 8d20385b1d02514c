"""P19 constructors, builders and accessors of the document model keep what they are given."""
import re
import mir
from depend import Depend, E
import ctx as C
from value import V
IDS = ["P19"]


def base(b, i):
    t = b.lty(i)
    while t["k"] == "ref":
        t = b.ty(t["a"][0])
    return t


def structs(c):
    return {n[7:] if n.startswith("crate::") else n: a for n, a in c.P.adts["ppt_rs"].items() if not a["enum"]}


CASE = ("to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase")
LOSSY = {"take", "skip", "filter", "filter_map", "rev", "step_by", "take_while", "skip_while", "truncate", "get", "first", "last", "split_at", "replace", "replacen", "chars", "split", "nth", "pop", "dedup", "repeat", "abs", "neg", "wrapping_neg", "wrapping_sub", "wrapping_add",
         "saturating_sub", "saturating_add", "saturating_mul", "wrapping_mul", "pow", "not", "xor", "rem_euclid", "swap_bytes", "reverse_bits", "checked_add",
         "checked_sub", "checked_mul", "len", "is_empty", "is_some", "is_none", "sqrt", "recip", "fract", "rotate_left", "rotate_right"}


def altered(c, v, arg, f, d=0):
    """what is done to arg on the way to v other than moving, converting, limiting or scaling it to a unit; '' if nothing that is known"""
    if v is arg or not isinstance(v, V) or d > 12:
        return ""
    if not mentions(v, arg):
        return ""
    sub = [x for x in v.a if isinstance(x, V)]
    for x in v.a:
        if isinstance(x, tuple):
            sub += [y for y in x if isinstance(y, V)]
    w = ""
    if v.k == "un":
        w = str(v.a[0]).lower()
    elif v.k == "bin":
        inverted = v.a[0] == "Sub" and f == "transparency"      # kept as the opacity left over
        if not inverted and v.a[0] not in ("Mul", "Div", "Eq", "Ne", "Lt", "Le", "Gt", "Ge") and any(x.k == "c" for x in sub):
            w = str(v.a[0]).lower()
        elif v.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            w = "compared"
    elif v.k == "ext":
        n = str(v.a[0]).split("::")[-1]
        colour = re.search(r"colou?r|format|accent|dark|light|hlink|background|foreground|ext", f)
        if n in LOSSY or n in CASE and not colour:
            w = n
    elif v.k == "app":
        b = v.a[0].body if hasattr(v.a[0], "body") else None
        n = b.id.split("::")[-1] if b is not None else ""
        want = {"x": "to_emu_x", "width": "to_emu_x", "cx": "to_emu_x", "y": "to_emu_y", "height": "to_emu_y", "cy": "to_emu_y"}.get(f)
        if n in ("to_emu_x", "to_emu_y") and want and n != want:
            return n
        return ""
    elif v.k not in ("agg", "cast", "pick", "alt", "optalt"):
        return ""
    if w:
        return w
    for x in sub:
        r = altered(c, x, arg, f, d + 1)
        if r:
            return r
    return ""


def mentions(v, arg):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x is arg:
            return True
        if isinstance(x, V):
            if x.n in seen:
                continue
            seen.add(x.n)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
        elif hasattr(x, "args") and hasattr(x, "body"):
            st.extend(x.args)
    return False


# fields that exclude each other, or that only cache what is derived from the others
TOGETHER = [{"fill", "gradient"}, {"subscript", "superscript"}, {"h_align", "v_align"}]
CACHE = {"xml_content", "modified", "dirty"}
PRESET = {"from_language"}


def resets(P, D, M, b, s, out, a):
    """fields of the receiver that a step with this result loses without storing an argument in them"""
    nargs = b.argc - 1
    res, lost, stored, part = s.get(out, {}), [], [], []
    m = None
    for f, ft, *_ in a["v"][0]["f"]:
        d = D.read({(0, k): v for k, v in res.items()}, 0, f)
        if any(j == 1 and x in ("", f) for j, x in d) or f in CACHE:
            continue
        if any(j != 1 for j, _ in d):
            stored.append(f)
            continue
        m = m or M.summary(b)
        if m and any(j != 1 for j, _ in D.read({(0, k): v for k, v in m.get(out, {}).items()}, 0, f)):
            part.append(f)
            continue
        if b.ty(ft)["s"] == "bool" and (not nargs or f.startswith("has_")):
            continue
        lost.append(f)
    if b.id.split("::")[-1] in PRESET or re.match("clear|reset|remove|take|drain", b.id.split("::")[-1]):
        return [], []
    if not nargs and len(lost) == 1:
        lost = []
    for g in TOGETHER:
        if len(g & set(lost + stored + part)) > 1:
            lost = [f for f in lost if f not in g]
    return lost, stored if len(stored) > nargs else []


def nested(c, A, b, name):
    """parts of struct-valued fields that the step overwrites with a constant"""
    out, root = [], c.R.root(b)
    try:
        app = c.R.mkapp(b, tuple(root.args))
        for f, ft, *_ in A[name]["v"][0]["f"]:
            t = b.ty(ft)["s"]
            if t.split("<")[0] not in A:
                continue
            v = c.R.project(app, "", f, t)
            for g, gt, *_ in A[t.split("<")[0]]["v"][0]["f"]:
                w = c.R.project(v, "", g, b.ty(gt)["s"])
                if w.k in ("c", "agg") and not any(mentions(w, a) for a in root.args) and not (b.argc == 1 and b.ty(gt)["s"] == "bool"):
                    out.append(f + "." + g)
    except (RecursionError, IndexError, KeyError):
        return []
    return out


def out_of_reach(b):
    return b.lty(1)["s"].startswith("&mut ") and b.lty(0)["s"] not in ("()",) and base(b, 0)["s"] != base(b, 1)["s"]


def run(c):
    P = c.P
    D, M = Depend(P), Depend(P, True)
    A = structs(c)
    n = dict(steps=0, builds=0, setters=0, constructors=0, accessors=0, named_fields=0, followed_values=0)
    for b in sorted(P.bodies.values(), key=lambda b: (b.file, b.line, b.id)):
        if b.kind == "closure" or b.crate != "ppt_rs" or not b.pub or b.derived:
            continue
        ret, me = base(b, 0), base(b, 1) if b.argc else None
        fn = C.short_fn(b.id)
        last = b.id.split("::")[-1]
        selfarg = b.names.get(1) == "self"
        rname = ret["s"].split("<")[0]
        where = "%s:%s in %s" % (b.file, b.line, b.id)
        out = None
        if selfarg and me["s"].split("<")[0] in A and (me["s"] == ret["s"] or b.lty(1)["s"].startswith("&mut ")) and not out_of_reach(b):
            o = "ret" if me["s"] == ret["s"] else 1
            s = D.summary(b)
            if s is not None:
                n["steps"] += 1
                lost, wide = resets(P, D, M, b, s, o, A[me["s"].split("<")[0]])
                if o == "ret" and b.lty(1)["k"] != "ref":
                    lost = lost + nested(c, A, b, me["s"].split("<")[0])
                for f in lost:
                    c.violate("reset|%s|%s" % (fn, f), "%s resets the field %s set by an earlier step" % (last, f), where)
                if wide:
                    c.violate("widened|%s" % fn, "%s has %d arguments but overwrites the fields %s" % (last, b.argc - 1, ", ".join(wide)), where)
        if selfarg and last.startswith(("build", "finish", "into_")) and b.lty(1)["k"] != "ref" and me["s"].split("<")[0] in A and me["s"] != ret["s"] and rname in A:
            s = D.summary(b)
            mine = {f[0] for f in A[me["s"].split("<")[0]]["v"][0]["f"]}
            res = {(0, k): v for k, v in s.get("ret", {}).items()} if s else {}
            for f in [f[0] for f in A[rname]["v"][0]["f"] if f[0] in mine and s]:
                n["builds"] += 1
                d = D.read(res, 0, f)
                if not any(j > 1 or x in ("", f) for j, x in d):
                    c.violate("build|%s|%s" % (fn, f), "%s does not carry on the field %s set on the builder" % (last, f), where)
        if selfarg and me is not None and me["s"] == ret["s"] and me["s"].split("<")[0] in A and b.argc > 1:
            kind, out, a = "setters", "ret", A[me["s"].split("<")[0]]
        elif selfarg and b.lty(1)["s"].startswith("&mut ") and b.lty(0)["s"] == "()" and me["s"].split("<")[0] in A and b.argc > 1:
            kind, out, a = "setters", 1, A[me["s"].split("<")[0]]
        elif not selfarg and rname in A and b.argc and b.selfty is not None:
            kind, out, a = "constructors", "ret", A[rname]
        elif selfarg and b.argc == 1 and b.lty(1)["s"].startswith("&") and me["s"].split("<")[0] in A:
            fs = {f[0]: f for f in A[me["s"].split("<")[0]]["v"][0]["f"]}
            f = last if last in fs else last[4:] if last.startswith("get_") and last[4:] in fs else None
            if f is None or b.lty(0)["s"] == "()" or b.lty(1)["s"].startswith("&mut ") and b.lty(0)["k"] != "ref":
                continue
            n["accessors"] += 1
            s = D.summary(b)
            if s is None:
                c.undec(fn)
                continue
            got = frozenset().union(E, s["ctl"], *s["ret"].values())
            if not any(i == 1 and x in (f, "", "*") for i, x in got):
                c.violate("accessor|%s" % fn, "%s() does not return the %s it is named after" % (last, f), where)
            continue
        else:
            continue
        s = D.summary(b)
        if s is None:
            c.undec(fn)
            continue
        n[kind] += 1
        res = s.get(out, {})
        fs = [f[0] for f in a["v"][0]["f"]]
        got = frozenset().union(E, s["ctl"], *res.values())
        for i in range(2 if selfarg else 1, b.argc + 1):
            nm = b.names.get(i) or ""
            # only an enum, or a text that is parsed, can have its effect by choosing a branch
            t = base(b, i)
            e = P.adts["ppt_rs"].get("crate::" + t["s"].split("<")[0]) or P.adts["ppt_rs"].get(t["s"].split("<")[0])
            chooses = e and e["enum"] or t["s"] in ("str", "std::string::String") and re.match("from_|parse", last)
            if not chooses:
                data = frozenset().union(E, *res.values())
                if not any(j == i for j, _ in data) and any(j == i for j, _ in got):
                    c.violate("ignored|%s|%s" % (fn, nm or i), "the argument %s of %s is stored on some paths only" % (nm or i, last), where)
                    continue
            if not any(j == i for j, _ in got):
                m = M.summary(b)
                may = frozenset().union(E, *m.get(out, {}).values()) if m else E
                if m and any(j == i for j, _ in may) and any(j not in (i, 1 if selfarg else 0) for j, _ in m["ctl"]):
                    # which part is set is chosen by another argument
                    continue
                c.violate("ignored|%s|%s" % (fn, nm or i), "the argument %s of %s does not reach the result on every path" % (nm or i, last), where)
                continue
            m = re.sub(r"^(with|set)_", "", last)
            if selfarg and b.argc == 2:
                f = m if m in fs else None
            else:
                f = nm if nm in fs and all((b.names.get(j) or "") in fs for j in range(2 if selfarg else 1, b.argc + 1)) else None
            if f is None or selfarg and last.startswith(("add_", "push_", "append_")):
                continue
            n["named_fields"] += 1
            d = D.read({(0, k): v for k, v in res.items()}, 0, f)
            if not any(j == i for j, _ in (d | s["ctl"] if chooses else d)):
                c.violate("field|%s|%s" % (fn, f), "%s does not store its argument %s in the field %s on every path" % (last, nm or i, f), where)
                continue
            if out != "ret" or b.lty(0)["k"] == "ref":
                continue
            ft = [x[1] for x in a["v"][0]["f"] if x[0] == f][0]
            root = c.R.root(b)
            try:
                v = c.R.project(c.R.mkapp(b, tuple(root.args)), "", f, b.ty(ft)["s"])
            except (RecursionError, IndexError, KeyError):
                continue
            n["followed_values"] += 1
            w = altered(c, v, root.args[i - 1], f)
            if not w and v.k in ("ext", "bin", "un", "cast", "alt", "optalt", "pick", "phi"):
                # two separate data in one field
                o = [b.names.get(j) for j in range(2 if selfarg else 1, b.argc + 1) if j != i and b.names.get(j) in fs and mentions(v, root.args[j - 1])]
                w = "with " + o[0] if o else ""
            if w:
                c.violate("altered|%s|%s|%s" % (fn, f, w), "%s stores its argument %s in %s only after changing it (%s)" % (last, nm or i, f, w), where)
        if kind == "setters" and out == "ret":
            kept = D.read({(0, k): v for k, v in res.items()}, 0)
            if not any(j == 1 for j, _ in kept | s["ctl"]):
                c.violate("dropped|%s" % fn, "%s returns a value that does not carry on the one it was called on" % last, where)
    for k, v in n.items():
        c.floor(k + "_checked", v, {"steps": 250, "builds": 20, "setters": 200, "constructors": 60, "accessors": 20, "named_fields": 150, "followed_values": 100}[k])
    c.coverage["rule"] = ("must-dependency of results and receivers on parameters (meet over paths), and the symbolic value of every field named like an "
                          "argument or setter must be that argument, converted, scaled to a unit or limited only")
    c.explanation = ("on MIR of every public constructor, builder step, setter and accessor: a field-sensitive must-dependency fixpoint (meet over all paths, loops "
                     "taken to run) says which arguments reach which field of the result; the symbolic value of each named field is then compared with the argument")
    c.assumptions += ["standard-library conversions (to_string, into, collect, clone) carry their operand on unchanged",
                      "a branch on an argument counts as using it; arguments without a field of their name are only required to reach the result"]

"""OOXML content models (lib/ooxml_schema.txt) checked along every emission path: child order and required children (P04),
attribute names, required attributes and enumerated values (P16)."""
import os, re
import xmldom

HERE = os.path.dirname(os.path.abspath(__file__))


class Schema:
    def __init__(self):
        self.groups, self.types, self.els = {}, {}, {}
        for ln in open(os.path.join(HERE, "ooxml_schema.txt")):
            ln = ln.rstrip("\n")
            if not ln.strip() or ln.startswith("#"):
                continue
            if ln.startswith("@"):
                k, v = ln.split(" = ", 1)
                self.groups[k.strip()] = v.strip()
            elif " | " in ln or ln.endswith(" |"):
                names, attrs, content = [x.strip() for x in (ln + " ").split("|", 2)]
                at = {}
                for a in attrs.split():
                    m = re.match(r"([^!=]+)(!)?(=(.*))?$", a)
                    at[m.group(1)] = (bool(m.group(2)), m.group(4))
                for n in names.split(","):
                    assert n not in self.els, n
                    self.els[n] = (at, self.content(content))
            else:
                k, v = ln.split(" : ", 1)
                v = v.strip()
                self.types[k.strip()] = re.compile("(?:%s)$" % v[1:-1]) if v.startswith("/") else frozenset(v.split())
        for n, (at, c) in self.els.items():
            for a, (rq, ty) in at.items():
                if ty and not ty.startswith("/"):
                    assert ty in self.types, (n, a, ty)

    def content(self, s):
        """-> None (anything) or list of (names, required, repeatable)"""
        for _ in range(4):
            for m in sorted(re.findall(r"@\w+", s), key=len, reverse=True):
                s = s.replace(m, self.groups[m])
        if s == "ANY":
            return None
        out = []
        for t in re.findall(r"\([^()]*\)[?*+]?|[^\s()]+", s):
            if t == "TEXT":
                continue
            card = t[-1] if t[-1] in "?*+" else ""
            t = t[:-1] if card else t
            names = frozenset(t.strip("()").split("|"))
            assert all(names), s
            out.append((names, card == "", card in ("*", "+")))
        return out

    def key(self, tag, parent):
        k = "%s/%s" % (tag, parent)
        if k in self.els:
            return k
        return tag if tag in self.els else None

    def check(self, ty, val):
        """True fits, False does not, None not decidable"""
        if ty is None:
            return True
        t = re.compile("(?:%s)$" % ty[1:-1]) if ty.startswith("/") else self.types[ty]
        if "\0" in val:
            if isinstance(t, frozenset):
                return None
            if ty in ("int", "uint", "pct") and re.fullmatch(r"(\0#\{[^\0]*\})", val):
                return True
            return None
        if val.endswith("\1"):
            return None
        if isinstance(t, frozenset):
            return val in t
        return bool(t.match(val))


SCHEMA = Schema()
TYPED = {(k.split("/")[0], a) for k, (at, _) in SCHEMA.els.items() for a, (_, ty) in at.items() if ty}
VARIANTS = {k.split("/")[0] for k in SCHEMA.els if "/" in k}
FOREIGN = ("mc:", "xmlns", "xml:", "xsi:")


class SchemaDomain(xmldom.XmlDomain):
    def join(self, a, b):
        return a[:6] + (a[6] & b[6],)

    def typed(self, tag, attr):
        return (tag, attr) in TYPED

    def grow(self, tag, attr, acc, piece):
        if self.typed(tag, attr):
            if acc.endswith("\0+") or not piece:
                return acc
            if "\0" in acc:                # run-time text already: undecidable whatever follows
                return acc + "\0+"
            if "&" in piece:               # an escaped character: run-time text
                piece = "\0{&}"
            return acc + piece if len(acc + piece) <= 120 else (acc + piece)[:120] + "\1"
        return xmldom.XmlDomain.grow(self, tag, attr, acc, piece)

    def parent(self, stk):
        return stk[-1][0] if stk else "-"

    def attr_done(self, eng, stk, tag, attr, val):
        k = SCHEMA.key(tag, self.parent(stk))
        if k is None or attr.startswith(FOREIGN):
            return
        at = SCHEMA.els[k][0]
        if self.ambiguous(tag, stk):
            return
        if attr not in at:
            if "{" not in attr:
                self.report(eng, "attr-unknown", "attribute %s is not defined for <%s>" % (attr, k))
            return
        ty = at[attr][1]
        if ty is None or val == "":        # the empty text is what a loop over run-time text leaves after no turn
            return
        r = SCHEMA.check(ty, val)
        shown = re.sub(r"\0#?\{[^\0]*?\}", "{}", val)
        self.count("value" if r is not None else "value-undecided", eng, "%s@%s=%s" % (k, attr, shown))
        if r is False:
            self.report(eng, "attr-value", "value %r of %s in <%s> is not one of the values of the schema" % (shown, attr, k))

    def ambiguous(self, tag, stk):
        """parent hidden or unknown, and the element's definition depends on it"""
        p = self.parent(stk)
        return (not stk or p[0] in "\0?" or "{" in p) and tag in VARIANTS

    def entry(self, tag, stk, base):
        k = SCHEMA.key(tag, self.parent(stk))
        if k is None or self.ambiguous(tag, stk) or SCHEMA.els[k][1] is None:
            return (tag, 0, base)
        return (tag, (k, 0, 0), base)

    def open(self, eng, stk, tag, attrs, selfclose):
        k = SCHEMA.key(tag, self.parent(stk))
        if k is not None and not self.ambiguous(tag, stk):
            names = {a[0] for a in attrs}
            for a, (rq, ty) in sorted(SCHEMA.els[k][0].items()):
                if rq:
                    self.count("required-attr", eng, k + "@" + a)
                    if a not in names:
                        self.report(eng, "attr-missing", "attribute %s of <%s> is missing on some path" % (a, k))
        return xmldom.XmlDomain.open(self, eng, stk, tag, attrs, selfclose)

    def child(self, eng, parent, tag, stk):
        if parent[0] == "\0base":         # the parent lies below the visible top of the stack: needs the whole stack
            return ("\0pop", 0, None)
        if not isinstance(parent[1], tuple) or "{" in tag:
            if "{" in tag and isinstance(parent[1], tuple):
                self.computed = getattr(self, "computed", set()) | {parent[1][0]}
            return (parent[0], 0, parent[2]) if "{" in tag else parent
        k, i, sat = parent[1]
        seq = SCHEMA.els[k][1]
        if tag == "mc:AlternateContent" and not any("mc:AlternateContent" in n for n, _, _ in seq):
            return (parent[0], 0, parent[2])
        self.count("child", eng, k + ">" + tag)
        at = None
        for j in range(i, len(seq)):
            if tag in seq[j][0]:
                at = j
                break
        if at is None:
            if any(tag in n for n, _, _ in seq):
                self.report(eng, "child-order", "<%s> in <%s> after an element that must follow it" % (tag, k))
            else:
                self.report(eng, "child-unknown", "<%s> is not a child of <%s>" % (tag, k))
            return parent
        for j in range(i, at):
            if seq[j][1]:
                self.report(eng, "child-missing", "<%s> in <%s> without the <%s> required before it" % (tag, k, "|".join(sorted(seq[j][0]))))
        n = at if seq[at][2] else at + 1
        return (parent[0], (k, n, 0), parent[2])

    def closing(self, eng, entry):
        if not isinstance(entry[1], tuple):
            return
        k, i, sat = entry[1]
        seq = SCHEMA.els[k][1]
        self.count("closed", eng, k)
        self.ends = getattr(self, "ends", {})
        self.ends[entry[0]] = (k, max(i, self.ends.get(entry[0], (k, 0))[1]))
        for j in range(i, len(seq)):
            if seq[j][1]:
                self.report(eng, "child-missing", "<%s> ends without its required <%s>" % (k, "|".join(sorted(seq[j][0]))))

    def frag_parent(self, tag):
        """an element whose end tag marks where a fragment is inserted: everything it holds so far comes before"""
        e = getattr(self, "ends", {}).get(tag)
        return (tag, e + (0,) if e else 0, None)

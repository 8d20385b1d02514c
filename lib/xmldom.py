"""XML lexer as a text domain: tracks markup context, open-element stack,
namespace scope, attribute sets and child order along every emission path."""
from emit import Domain, DANGER

PREFIX_LISTS = ("Requires", "mc:Ignorable", "mc:ProcessContent", "mc:MustUnderstand")     # values that list prefixes
import re

NAME0 = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:")
NAMEC = NAME0 | set("0123456789-.")
WS = set(" \t\r\n")
VOID = {"br", "img", "meta", "hr", "input", "link", "source", "area", "base", "col", "embed", "wbr", "!doctype"}

# state: (mode, stack, tag, attr, q, acc, attrs)
#  mode: T text, O after '<', N name, A in tag, a attr name, E after '=', Q value, G after value, S after '/', C close name,
#        B bang, P pi, M comment, D cdata, R raw text element
#  stack: tuple of (name, childpos, nsdecls)   bottom entry name '?' = unknown context


def start(stack=()):
    return ("T", stack, "", "", "", "", frozenset())


class XmlDomain(Domain):
    def __init__(self, html=False, models=None, require_ns=False):
        self.viol = {}
        self.html = html
        self.models = models or {}
        self.require_ns = require_ns
        self.obl = {}          # obligations counted: kind -> set of keys
        self.keep = set()      # elements whose attributes are reported
        self.on_tag = None     # callback(eng, stack, name, attrs)
        self.attrholes = {}
        self.scope = {}        # element -> prefixes in scope wherever it is written
        self.later = []        # prefixes of text inserted into an element, judged once that element's scope is known

    # -- engine interface
    def key(self, st):
        return st[:6], st[6]

    def join(self, a, b):
        return a[:6] + (a[6] | b[6],)

    def split(self, st):
        stk = st[1]
        if len(stk) <= 1:
            return st, None
        return (st[0], (("\0base", 0, None), stk[-1])) + st[2:], stk[:-1]

    def rejoin(self, st, rest):
        if rest is None:
            return st
        return (st[0], rest + st[1][1:]) + st[2:]

    def escaped(self, st, rest):
        """callee closed elements of its caller below the visible top: needs the whole stack"""
        return rest is not None and any(x[0] == "\0pop" for x in st[1])

    def report(self, eng, rule, detail, sink="", v=None):
        b, l = eng.where()
        k = (rule, b.id if b else "?", detail)
        if k not in self.viol:
            ctx = [(x.id, y) for x, y in eng.stack if x is not None]
            self.viol[k] = {"rule": rule, "fn": b.id if b else "?", "file": b.file if b else "?", "line": l, "detail": detail, "sink": sink, "v": v,
                            "path": ["%s:%d" % c for c in ctx[-8:]]}

    def count(self, kind, eng, extra=""):
        b, l = eng.where()
        self.obl.setdefault(kind, set()).add((b.id if b else "?", l, extra))

    # -- transfer
    def lit(self, eng, st, s):
        mode, stk, tag, attr, q, acc, attrs = st
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if mode == "T":
                j = s.find("<", i)
                txt = s[i:j] if j >= 0 else s[i:]
                if acc or "&" in txt:
                    acc = self.entity(eng, acc, txt)
                if txt and not txt.isspace() and stk:
                    pass
                if j < 0:
                    i = n
                    break
                if acc:
                    self.report(eng, "malformed", "'&' does not start an entity reference in text")
                    acc = ""
                mode = "O"
                i = j + 1
                continue
            if mode == "O":
                if c == "/":
                    mode, tag = "C", ""
                elif c == "!":
                    mode, acc = "B", "!"
                elif c == "?":
                    mode, acc = "P", ""
                elif c in NAME0:
                    mode, tag, attrs = "N", c, frozenset()
                else:
                    self.report(eng, "malformed", "'<' followed by %r" % c)
                    mode = "T"
                i += 1
                continue
            if mode == "N":
                if c in NAMEC:
                    tag += c
                elif c in WS:
                    mode = "A"
                elif c == ">":
                    mode, stk = self.open(eng, stk, tag, attrs, False)
                    attrs = frozenset()
                elif c == "/":
                    mode = "S"
                else:
                    self.report(eng, "malformed", "character %r in element name <%s" % (c, tag))
                    mode = "A"
                i += 1
                continue
            if mode in ("A", "G"):
                if c in WS:
                    mode = "A"
                elif c == ">":
                    mode, stk = self.open(eng, stk, tag, attrs, False)
                    attrs = frozenset()
                elif c == "/":
                    mode = "S"
                elif c in NAME0:
                    if mode == "G":
                        self.report(eng, "malformed", "no whitespace before attribute %s.. of <%s>" % (c, tag))
                    mode, attr = "a", c
                else:
                    self.report(eng, "malformed", "character %r inside tag <%s>" % (c, tag))
                i += 1
                continue
            if mode == "a":
                if c in NAMEC:
                    attr += c
                elif c == "=":
                    mode = "E"
                elif self.html and c in WS:
                    mode = "A"
                elif self.html and c == ">":
                    mode, stk = self.open(eng, stk, tag, attrs, False)
                    attrs = frozenset()
                else:
                    self.report(eng, "malformed", "character %r in attribute name %s of <%s>" % (c, attr, tag))
                    mode = "A"
                i += 1
                continue
            if mode == "E":
                if c in "\"'":
                    q, mode, acc = c, "Q", ""
                    key = (attr, attr)
                    if any(a[0] == attr for a in attrs):
                        self.report(eng, "duplicate-attribute", "attribute %s repeated in <%s>" % (attr, tag))
                    self.count("attribute", eng, tag + "@" + attr)
                elif c in WS:
                    pass
                else:
                    self.report(eng, "malformed", "unquoted value of %s in <%s>" % (attr, tag))
                    mode = "A"
                i += 1
                continue
            if mode == "Q":
                j = s.find(q, i)
                txt = s[i:j] if j >= 0 else s[i:]
                if "<" in txt:
                    self.report(eng, "malformed", "'<' in value of %s in <%s>" % (attr, tag))
                acc2 = self.grow(tag, attr, acc, txt)
                if "&" in txt and not self.html:
                    self.check_entities(eng, txt, attr, tag)
                if j < 0:
                    acc = acc2
                    i = n
                    break
                val = acc2
                self.attr_done(eng, stk, tag, attr, val)
                attrs = attrs | {(attr, val if (tag in self.keep or attr.startswith("xmlns") or attr in self.keep or attr in PREFIX_LISTS) else "")}
                acc = ""
                mode = "G"
                i = j + 1
                continue
            if mode == "S":
                if c == ">":
                    mode, stk = self.open(eng, stk, tag, attrs, True)
                    attrs = frozenset()
                else:
                    self.report(eng, "malformed", "'/' not followed by '>' in <%s>" % tag)
                    mode = "A"
                i += 1
                continue
            if mode == "C":
                if c == ">":
                    mode, stk = "T", self.close(eng, stk, tag.strip())
                    tag = ""
                elif c in NAMEC or c in WS:
                    tag += c
                else:
                    self.report(eng, "malformed", "character %r in end tag </%s" % (c, tag))
                i += 1
                continue
            if mode == "B":
                acc += c
                if acc == "!--":
                    mode, acc = "M", ""
                elif acc == "![CDATA[":
                    mode, acc = "D", ""
                elif c == ">":
                    mode, acc = "T", ""
                i += 1
                continue
            if mode == "P":
                acc = (acc + c)[-2:]
                if acc == "?>":
                    mode, acc = "T", ""
                i += 1
                continue
            if mode == "M":
                acc = (acc + c)[-3:]
                if acc == "-->":
                    mode, acc = "T", ""
                i += 1
                continue
            if mode == "D":
                acc = (acc + c)[-3:]
                if acc == "]]>":
                    mode, acc = "T", ""
                i += 1
                continue
            if mode == "R":
                acc = (acc + c)[-12:]
                if acc.endswith("</" + tag + ">"):
                    mode, acc = "T", ""
                    stk = stk[:-1] if stk and stk[-1][0] == tag else stk
                i += 1
                continue
            raise AssertionError(mode)
        if mode != "Q" and mode not in ("T", "B", "P", "M", "D", "R"):
            acc = ""
        if mode in ("T", "O", "C"):
            attr = q = ""
            if mode != "C":
                tag = ""
            attrs = frozenset()
        return [(mode, stk, tag, attr, q, acc, attrs)]

    def grow(self, tag, attr, acc, piece):
        """value text of attributes somebody asked about; others need no memory"""
        if tag in self.keep or attr in self.keep or attr.startswith("xmlns") or attr in PREFIX_LISTS:
            return (acc + piece)[:160]
        return ""

    def entity(self, eng, acc, txt):
        """pending entity prefix in text"""
        s = acc + txt
        i = 0
        while True:
            j = s.find("&", i)
            if j < 0:
                return ""
            m = re.match(r"&(#x?[0-9a-fA-F]*|[A-Za-z][A-Za-z0-9]*)?(;)?", s[j:])
            if m.group(2):
                i = j + m.end()
                continue
            if j + m.end() == len(s):
                return s[j:]
            self.report(eng, "malformed", "'&' does not start an entity reference in text")
            i = j + 1

    def check_entities(self, eng, txt, attr, tag):
        for m in re.finditer(r"&(?!(#x?[0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);)", txt):
            self.report(eng, "malformed", "'&' does not start an entity reference in %s of <%s>" % (attr, tag))

    def hole(self, eng, st, desc, danger, v):
        mode, stk, tag, attr, q, acc, attrs = st
        if mode == "T":
            self.count("text-hole", eng, desc)
            bad = danger & (frozenset("&<") if not self.html else frozenset("<"))
            if bad:
                self.report(eng, "unescaped", "%s reaches element text with %s unescaped" % (desc, " ".join(sorted(bad))),
                            "text of <%s>" % (stk[-1][0] if stk else ""), v)
            return [st]
        if mode == "Q":
            self.count("attr-hole", eng, tag + "@" + attr + "=" + desc)
            bad = danger & (frozenset(("<", "&", q)) if not self.html else frozenset((q,)))
            if bad:
                self.report(eng, "unescaped", "%s reaches attribute %s of <%s> with %s unescaped" %
                            (desc, attr, tag, " ".join(sorted(bad))), "%s@%s" % (tag, attr), v)
            return [(mode, stk, tag, attr, q, self.grow(tag, attr, acc, "\0{%s}" % desc), attrs)]
        if mode in ("N", "O"):
            self.count("name-hole", eng, desc)
            return [("N", stk, tag + "{" + desc + "}", "", "", "", attrs)]
        if mode == "C":
            return [(mode, stk, tag + "{" + desc + "}", attr, q, acc, attrs)]
        if mode in ("A", "G", "a"):
            # an unknown piece inside a tag: attribute list produced elsewhere
            self.count("tag-hole", eng, desc)
            if mode == "a":
                return [(mode, stk, tag, attr + "{" + desc + "}", q, acc, attrs)]
            if danger:
                self.report(eng, "unescaped", "%s is spliced into the tag <%s>" % (desc, tag), "tag <%s>" % tag, v)
            return [("A", stk, tag, "", "", "", attrs)]
        if mode in ("M", "D", "P", "B", "R"):
            return [st]
        self.report(eng, "malformed", "%s in lexer state %s of <%s>" % (desc, mode, tag))
        return [st]

    def num(self, eng, st, v, spec):
        mode, stk, tag, attr, q, acc, attrs = st
        if mode == "T":
            return [(mode, stk, tag, attr, q, "" if not acc.startswith("&#") else acc + "0", attrs)]
        if mode == "Q":
            return [(mode, stk, tag, attr, q, self.grow(tag, attr, acc, "\0#{%s}" % eng_pretty(v)), attrs)]
        return self.hole(eng, st, "#" + eng_pretty(v), frozenset(), v)

    # -- element structure
    def open(self, eng, stk, tag, attrs, selfclose):
        self.count("element", eng, tag)
        ns = stk[-1][2] if stk else None
        decl = frozenset(a[0][6:] for a in attrs if a[0].startswith("xmlns:"))
        base = ns if ns is not None else (frozenset() if (self.require_ns and not stk) else None)
        if base is not None:
            base = base | decl
            into = [x for x in base if x[0] == "\0"]
            if not into:
                self.scope[tag] = self.scope[tag] & base if tag in self.scope else base
            lists = [p + ":" for a in attrs if a[0] in PREFIX_LISTS and len(a) > 1 and "\0" not in a[1] for p in a[1].split()]
            for nm in [tag] + [a[0] for a in attrs] + lists:
                if ":" in nm and not nm.startswith(("xmlns:", "xml:")) and "{" not in nm.split(":")[0]:
                    self.obl.setdefault("prefix", set()).add((eng.where()[0].id if eng.where()[0] else "?", nm))
                    if nm.split(":")[0] not in base and into:
                        self.later.append((into[0][1:], nm, tag) + eng.where() + (tuple((x.id, y) for x, y in eng.stack if x is not None),))
                    elif nm.split(":")[0] not in base:
                        self.report(eng, "undeclared-prefix", "prefix of %s (in <%s>) is not declared" % (nm, tag))
        elif decl:
            base = None
        # child order
        if stk:
            stk = stk[:-1] + (self.child(eng, stk[-1], tag, stk),)
        if self.on_tag:
            self.on_tag(eng, stk, tag, attrs)
        lname = tag.lower()
        if self.html and lname in VOID:
            return "T", stk
        if selfclose:
            self.closing(eng, self.entry(tag, stk, base))
            return "T", stk
        if len(stk) > 80:
            self.report(eng, "unbalanced", "<%s> opened repeatedly without being closed" % tag)
            return "T", stk
        if self.html and lname in ("style", "script"):
            return "R", stk + (self.entry(tag, stk, base),)
        return "T", stk + (self.entry(tag, stk, base),)

    def close(self, eng, stk, tag):
        if not stk:
            self.report(eng, "unbalanced", "</%s> closes an element that is not open" % tag)
            return stk
        if stk[-1][0] in ("\0pop", "\0base"):
            return stk + (("\0pop", tag, None),)
        top = stk[-1]
        if top[0] == tag:
            self.closing(eng, top)
            return stk[:-1]
        if top[0] == "?":
            return stk
        self.report(eng, "unbalanced", "</%s> while <%s> is open" % (tag, top[0]))
        for i in range(len(stk) - 1, -1, -1):
            if stk[i][0] == tag:
                return stk[:i]
        return stk

    def child(self, eng, parent, tag, stk):
        m = self.models.get(parent[0])
        if m is None or "{" in tag:
            return parent
        pos = m.index(tag)
        self.obl.setdefault("child", set()).add((parent[0], tag))
        if pos is None:
            self.report(eng, "child-not-allowed", "<%s> is not a child of <%s>" % (tag, parent[0]))
            return parent
        if pos < parent[1] or (pos == parent[1] - 0.5 and False):
            self.report(eng, "child-order", "<%s> after a later sibling in <%s>" % (tag, parent[0]))
            return parent
        return (parent[0], m.after(pos), parent[2])

    def closing(self, eng, entry):
        pass

    def entry(self, tag, stk, base):
        return (tag, 0, base)

    def attr_done(self, eng, stk, tag, attr, val):
        pass

    def fragment(self, eng, st, v, how):
        """text inserted into / replacing part of an existing document: must itself be balanced and escaped"""
        kind, pos = how
        parent = ()
        if kind == "insert" and pos and pos[0]:
            m = re.match(r"</([A-Za-z0-9:]+)>", pos[0])
            if m:
                p = self.frag_parent(m.group(1))
                parent = ((p[0], p[1], frozenset({"\0" + m.group(1)}) if self.require_ns else None),)
            else:
                parent = (("?", 0, None),)
        elif kind == "insert":
            parent = (("?", 0, None),)
        if kind == "replace":
            # replacing inside markup: either a whole element or an attribute value
            if self.looks_markup(eng, v):
                parent = (("?", 0, None),)
            else:
                eng.emit(v, (("Q", (("?", 0, None),), "?", "?", '"', "", frozenset()), frozenset()))
                return
        for s, f in eng.emit(v, (start(parent), frozenset())):
            if s[0] != "T" or len(s[1]) != len(parent):
                self.report(eng, "unbalanced", "inserted fragment leaves %s open" % (s[1][-1][0] if s[1] else "markup"))

    def frag_parent(self, tag):
        return (tag, 0, None)

    def settle(self):
        """inserted text uses the prefixes in scope at the element it is inserted into"""
        for into, nm, tag, b, l, ctx in self.later:
            if into in self.scope and nm.split(":")[0] not in self.scope[into]:
                d = "prefix of %s (in <%s>) is not declared in <%s>, where it is inserted" % (nm, tag, into)
                self.viol.setdefault(("undeclared-prefix", b.id if b else "?", d), {
                    "rule": "undeclared-prefix", "fn": b.id if b else "?", "file": b.file if b else "?", "line": l, "detail": d, "sink": "",
                    "v": None, "path": ["%s:%d" % c for c in ctx[-8:]]})
        self.later = []

    def looks_markup(self, eng, v):
        d = FirstDomain()
        from emit import Engine
        e = Engine(eng.P, eng.R, d)
        try:
            return any(s == "<" for s, f in e.emit(v, (None, frozenset())))
        except Exception:
            return True


def eng_pretty(v):
    from value import pretty
    return pretty(v)


class FirstDomain(Domain):
    """first non-blank character of a string: None=nothing yet, '<', other"""

    def lit(self, eng, st, s):
        if st is not None:
            return [st]
        s = s.lstrip()
        if not s:
            return [None]
        return [s[0]]

    def hole(self, eng, st, desc, danger, v):
        return [st if st is not None else "\0"]

    def num(self, eng, st, v, spec):
        return [st if st is not None else "0"]

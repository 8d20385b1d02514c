"""Program model over the facts: bodies, CFGs, call graph."""
import collections, functools
import facts as _facts
import desugar as _desugar


class Body:
    __slots__ = ("_consts", "id", "kind", "file", "line", "pub", "vis", "name", "argc", "locals", "names", "ups", "blocks",
                 "parent", "selfty", "trait", "intrait", "derived", "unsafe", "crate", "prog", "_succ", "_pred",
                 "_dom", "_pdom", "cache", "exp")

    def __init__(self, prog, crate, j):
        self.prog, self.crate = prog, crate
        self.id = j["id"]
        for k, d in (("kind", ""), ("file", ""), ("line", 0), ("pub", 0), ("vis", 0), ("name", ""), ("argc", 0),
                     ("locals", []), ("ups", []), ("blocks", []), ("parent", None), ("trait", None),
                     ("intrait", None), ("derived", 0), ("unsafe", 0), ("exp", 0)):
            setattr(self, k, j.get(k, d))
        self.selfty = j.get("self")
        self.names = {int(k): v for k, v in j.get("names", {}).items()}
        self._succ = self._pred = self._dom = self._pdom = None
        self.cache = {}

    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succs(x["t"]) for x in self.blocks]
        return self._succ[b]

    @staticmethod
    def _succs(t):
        k = t[1]
        if k == "goto":
            return [t[2]]
        if k == "switch":
            r = [x[1] for x in t[3]]
            r.append(t[4])
            return r
        if k == "drop":
            return [t[3]]
        if k == "call":
            return [t[5]] if t[5] >= 0 else []
        if k == "assert":
            return [t[6]]
        return []

    def pred(self, b):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for i in range(len(self.blocks)):
                for s in self.succ(i):
                    p[s].append(i)
            self._pred = p
        return self._pred[b]

    def calls(self):
        """(block index, terminator) of every non-cleanup call"""
        if "calls" not in self.cache:
            self.cache["calls"] = [(i, b["t"]) for i, b in enumerate(self.blocks)
                                   if not b.get("cl") and b["t"][1] == "call"]
        return self.cache["calls"]

    def consts(self):
        """every constant mentioned (driver form), nested ones included"""
        if not hasattr(self, "_consts"):
            out = []

            def walk(x):
                if isinstance(x, dict):
                    if isinstance(x.get("k"), dict):
                        out.append(x["k"])
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            for b in self.blocks:
                walk(b["s"])
                walk(b["t"])
            self._consts = out
        return self._consts

    def strings(self):
        out = set()

        def walk(k):
            if isinstance(k, dict):
                if isinstance(k.get("str"), str):
                    out.add(k["str"])
                if isinstance(k.get("bytes"), list):
                    out.add(bytes(k["bytes"]).decode("utf-8", "replace"))
                for y in k.values():
                    walk(y)
            elif isinstance(k, list):
                for y in k:
                    walk(y)
        for k in self.consts():
            walk(k)
        return out

    def reach(self):
        """blocks reachable from entry"""
        if "reach" not in self.cache:
            seen, st = {0}, [0]
            while st:
                x = st.pop()
                for s in self.succ(x):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self.cache["reach"] = seen
        return self.cache["reach"]

    def dominators(self):
        if self._dom is None:
            self._dom = _doms(len(self.blocks), 0, self.succ, self.pred)
        return self._dom

    def dominates(self, a, b):
        return a in self.dominators()[b]

    def ty(self, n):
        return self.prog.types[self.crate][n]

    def lty(self, l):
        return self.ty(self.locals[l])

    def where(self, line=None):
        return "%s:%s" % (self.file, line or self.line)

    def __repr__(self):
        return "<Body %s>" % self.id


def _doms(n, entry, succ, pred):
    order, seen = [], set()

    st = [(entry, iter(succ(entry)))]
    seen.add(entry)
    while st:
        x, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ(s))))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    dom = {x: None for x in order}
    dom[entry] = frozenset([entry])
    ch = True
    while ch:
        ch = False
        for x in order:
            if x == entry:
                continue
            s = None
            for p in pred(x):
                if p in dom and dom[p] is not None:
                    s = dom[p] if s is None else s & dom[p]
            s = (s or frozenset()) | {x}
            if s != dom[x]:
                dom[x] = s
                ch = True
    return [dom.get(i) or frozenset() for i in range(n)]


def callee(t):
    """best-known callee of a call terminator (resolved if possible) or None for fn pointers"""
    k = t[2].get("k")
    if not k or "fn" not in k:
        return None
    return k.get("res") or k["fn"]


def fninfo(t):
    k = t[2].get("k")
    return k if k and "fn" in k else None


class Program:
    def __init__(self):
        data = _facts.load()
        self.types, self.traits, self.unsafe, self.adts, self.bodies = {}, {}, {}, {}, {}
        self.byname = collections.defaultdict(list)
        self.inlined = set()
        for cr, d in data.items():
            self.inlined |= _desugar.run(d)
            self.types[cr] = d["types"]
            self.unsafe[cr] = d["unsafe"]
            self.traits[cr] = d["traits"]
            self.adts[cr] = d["adts"]
            for j in d["bodies"]:
                if cr != "ppt_rs":
                    # the binary's own bodies live in a namespace of their own
                    j["id"] = j["id"].replace("crate::", cr + "::", 1) if "crate::" in j["id"] else cr + "::" + j["id"]
                b = Body(self, cr, j)
                self.bodies[b.id] = b
        self._norm_bin()
        if len(self.bodies) < 1500:
            raise _facts.FactsError("only %d bodies in the facts" % len(self.bodies))

    def _norm_bin(self):
        # the binary refers to library items as ppt_rs::...; parents of its closures use crate::
        for b in self.bodies.values():
            if b.crate != "ppt_rs" and b.parent and b.parent.startswith("crate::"):
                b.parent = b.parent.replace("crate::", b.crate + "::", 1)

    def resolve_id(self, crate, name):
        if name is None:
            return None
        if crate == "ppt_rs":
            return name
        n = name.replace("crate::", crate + "::")
        return n.replace("ppt_rs::", "crate::") if "ppt_rs::" in n else n

    def body(self, id):
        return self.bodies.get(id)

    def callee_id(self, body, t):
        return self.resolve_id(body.crate, callee(t))

    def _refs(self, body):
        """(kind, id, line) of everything the body may call: direct callees, closures it builds,
        function items it mentions as values, virtual calls -> every implementation"""
        out = []

        def fnconst(k, line):
            n = self.resolve_id(body.crate, k.get("res") or k["fn"])
            out.append(("call", n, line))
            if k.get("rk") == "Virtual" or "res" not in k:
                for m in self.impls(k["fn"]):
                    out.append(("virt", m, line))

        def operand(o, line):
            if not isinstance(o, dict):
                return
            k = o.get("k")
            if isinstance(k, dict):
                if "fn" in k:
                    fnconst(k, line)
                elif "fnptr" in k:
                    out.append(("ref", self.resolve_id(body.crate, k["fnptr"]), line))
                t = o.get("t")
                if isinstance(t, int) and t >= 0:
                    ty = body.ty(t)
                    if ty["k"] == "closure":
                        out.append(("closure", self.resolve_id(body.crate, ty["d"]), line))
            p = o.get("c") or o.get("m")

        def rv(r, line):
            for x in r[1:]:
                if isinstance(x, dict):
                    operand(x, line)
                elif isinstance(x, list):
                    if r[0] == "agg" and x and x[0] == "closure":
                        out.append(("closure", self.resolve_id(body.crate, x[1]), line))
                    for y in x:
                        if isinstance(y, dict):
                            operand(y, line)

        for b in body.blocks:
            if b.get("cl"):
                continue
            for s in b["s"]:
                if isinstance(s[2], list):
                    rv(s[2], s[0])
            t = b["t"]
            if t[1] == "call":
                operand(t[2], t[0])
                k = t[2].get("k")
                if isinstance(k, dict) and "fn" in k:
                    # generic callee instantiated with local types: trait impls reached through it
                    for a in k.get("ra", k.get("a", [])):
                        ty = body.ty(a)
                        if ty["k"] == "closure":
                            out.append(("closure", self.resolve_id(body.crate, ty["d"]), t[0]))
                        elif ty["k"] == "fndef":
                            out.append(("ref", self.resolve_id(body.crate, ty["d"]), t[0]))
                    for m in self.impl_for_generic(body, k):
                        out.append(("impl", m, t[0]))
                for a in t[3]:
                    operand(a, t[0])
        return out

    def impls(self, traitmethod):
        return self.traits["ppt_rs"].get(traitmethod, []) + \
            [self.resolve_id("pptcli", x) for x in self.traits.get("pptcli", {}).get(traitmethod, [])]

    def impl_for_generic(self, body, k):
        """std generic glue that calls back into local trait impls (to_string, fmt::Argument::new_display, clone,
        collect, from/into, ...): every local impl method of the instantiated type args' traits that may be invoked"""
        n = k["fn"]
        want = None
        if n.endswith("::to_string") or "new_display" in n:
            want = "core::fmt::Display"
        elif "new_debug" in n:
            want = "core::fmt::Debug"
        elif n.endswith("::into") or n.endswith("Into::into"):
            want = "core::convert::From"
        elif n.endswith("::parse"):
            want = "core::str::traits::FromStr"
        elif n.endswith("unwrap_or_default"):
            want = "core::default::Default"
        if not want:
            return []
        out = []
        for a in k.get("a", []):
            ty = body.ty(a)
            while ty["k"] == "ref":
                ty = body.ty(ty["a"][0])
            if ty["k"] == "adt":
                d = self.resolve_id(body.crate, ty["d"])
                out += self.impl_index().get((want, d), [])
        return out

    def impl_index(self):
        if not hasattr(self, "_ii"):
            ii = collections.defaultdict(list)
            for b in self.bodies.values():
                if b.trait and b.selfty is not None:
                    ty = b.ty(b.selfty)
                    if ty["k"] == "adt":
                        ii[(b.trait, self.resolve_id(b.crate, ty["d"]))].append(b.id)
            self._ii = ii
        return self._ii

    def edges(self, id):
        if not hasattr(self, "_edges"):
            self._edges = {}
        if id not in self._edges:
            b = self.bodies.get(id)
            self._edges[id] = self._refs(b) if b else []
        return self._edges[id]

    def callers(self):
        if not hasattr(self, "_callers"):
            c = collections.defaultdict(set)
            for i in self.bodies:
                for k, n, l in self.edges(i):
                    c[n].add((i, l))
            self._callers = c
        return self._callers

    def reachable(self, roots):
        """id -> (parent id, line) for everything reachable (local and external names)"""
        seen = {}
        q = collections.deque()
        for r in roots:
            seen[r] = None
            q.append(r)
        while q:
            x = q.popleft()
            for k, n, l in self.edges(x):
                if n is not None and n not in seen:
                    seen[n] = (x, l)
                    q.append(n)
        return seen

    def path_to(self, seen, x):
        p = []
        while x is not None:
            e = seen[x]
            p.append(x if e is None else "%s (called at %s:%s)" % (x, self.bodies[e[0]].file, e[1]))
            x = e[0] if e else None
        return list(reversed(p))

    def adt(self, name, crate="ppt_rs"):
        return self.adts[crate].get(name)

"""Field-sensitive must-dependency of a function's result (and of what its &mut parameters end up holding) on its parameters.

State: (local, field) -> set of atoms.  An atom (i, f) is field f of parameter i on entry, (i, '') all of it, (i, '*') "the same
field of parameter i" in the rest entry of an aggregate.  Joins intersect, so an atom that is present holds on every path; a branch
on a value counts as using it."""
import mir

E = frozenset()


class Depend:
    def __init__(self, P, may=False, strict=False):
        """strict: a branch counts as using its operand only on paths where what it decides makes a difference"""
        self.P, self.memo, self.busy, self.may, self.strict = P, {}, set(), may, strict

    # ------------------------------------------------------------------ state access
    @staticmethod
    def rest(fs, f):
        return frozenset((i, f) if x == "*" else (i, f + "#") if x == "*#" else (i, x) for i, x in fs)

    def read(self, st, l, f=None):
        if f is not None:
            if (l, f) in st:
                return st[(l, f)]
            return self.rest(st.get((l, ""), E), f)
        out = set(self.rest(st.get((l, ""), E), ""))
        for k in st:
            if isinstance(k, tuple) and k[0] == l:
                out |= self.rest(st[k], "")
        return frozenset(out)

    def clear(self, st, l):
        for k in [k for k in st if isinstance(k, tuple) and k[0] == l]:
            del st[k]

    def entries(self, st, l):
        return {k[1]: v for k, v in st.items() if isinstance(k, tuple) and k[0] == l}

    def place(self, body, p, al):
        """place -> (base local, first field name or None, deeper?)"""
        l, projs = p
        f, deep, n = None, False, 0
        seen = set()
        projs = list(projs)
        while l in al and l not in seen and (len(al[l]) == 3 or projs and projs[0][0] == "*"):
            seen.add(l)
            bl, bp = al[l][:2]
            l, projs = bl, list(bp) + projs[len(al[l]) == 2:]
        for x in projs:
            if x[0] == "*":
                continue
            if x[0] == "f" and x[3] in ("Some", "Ok") and f is None and not deep:
                # an optional struct stands for the struct
                continue
            if x[0] == "f" and f is None and not deep:
                f = x[2]
            else:
                deep = True
        return l, f, deep

    def aliases(self, body):
        c = body.cache.get("dep_al")
        if c is not None:
            return c
        defs = {}
        for blk in body.blocks:
            if blk.get("cl"):
                continue
            for s in blk["s"]:
                if len(s) > 2 and s[2][0] != "dead" and not s[1][1]:
                    defs.setdefault(s[1][0], []).append(s[2])
            t = blk["t"]
            if t[1] == "call" and not t[4][1]:
                defs.setdefault(t[4][0], []).append(("call", t))
        al = {}
        for l, ds in defs.items():
            if len(ds) == 1:
                d = ds[0]
                if d[0] == "ref":
                    al[l] = (d[2][0], d[2][1])
                elif d[0] == "use" and ("IterMut" in body.lty(l)["s"] or "&mut " in body.lty(l)["s"] and body.lty(l)["k"] != "ref"):
                    q = d[1].get("m") or d[1].get("c")
                    if q and not q[1]:
                        al[l] = (q[0], [], 1)
                elif d[0] == "use" and body.lty(l)["k"] == "ref":
                    q = d[1].get("m") or d[1].get("c")
                    if q:
                        al[l] = (q[0], list(q[1]) + [["*"]])
                elif d[0] == "cast" and d[1] == "BoxDerefTransmute":
                    q = d[2].get("m") or d[2].get("c")
                    if q:
                        al[l] = (q[0], [["e"]])
                elif d[0] == "call" and d[1][3] and ("IterMut" in body.lty(l)["s"] or "&mut " in body.lty(l)["s"] and body.lty(l)["k"] != "ref"):
                    # an iterator over, or an optional view of, the object
                    q = d[1][3][0].get("m") or d[1][3][0].get("c")
                    if q and not q[1] and q[0] != l:
                        al[l] = (q[0], [["*"], ["e"]] if body.lty(q[0])["k"] == "ref" else [["e"]], 1)
                elif d[0] == "call":
                    # views of the same object
                    n = (mir.callee(d[1]) or "").split("::")[-1]
                    if n in ("deref_mut", "deref", "as_mut", "borrow_mut", "as_ref", "iter_mut", "get_or_insert_with", "get_or_insert", "get_mut", "last_mut",
                             "index_mut", "entry", "or_default", "or_insert_with", "unwrap", "as_deref_mut") and d[1][3]:
                        q = d[1][3][0].get("m") or d[1][3][0].get("c")
                        if q and not q[1] and body.lty(q[0])["k"] == "ref" and q[0] != l:
                            al[l] = (q[0], [["*"], ["e"]])
        body.cache["dep_al"] = al
        return al

    # ------------------------------------------------------------------ summaries
    def summary(self, body):
        """{'ret': {field: atoms}, param: {field: atoms}} or None"""
        if body.id in self.memo:
            return self.memo[body.id]
        if body.id in self.busy:
            return None
        self.busy.add(body.id)
        r = None
        br = self.breaks(body) if self.strict else ()
        early = None
        if br:
            # leaving a loop before its end may happen in the first iteration
            early = {}
            self.analyse(body, first=early)
        r = self.analyse(body, early, br)
        self.busy.discard(body.id)
        self.memo[body.id] = r
        return r

    def nexts(self, body):
        """locals that hold what an iterator's next gave"""
        c = body.cache.get("dep_nx")
        if c is None:
            c = {b["t"][4][0] for b in body.blocks if b["t"][1] == "call" and b["t"][4] and not b["t"][4][1]
                 and (mir.callee(b["t"]) or "").split("::")[-1] in ("next", "next_back", "peek")}
            body.cache["dep_nx"] = c
        return c

    def breaks(self, body):
        """edges that leave a loop elsewhere than at its first branch"""
        c = body.cache.get("dep_br")
        if c is None:
            c = set()
            n = len(body.blocks)
            reach = {}

            def rs(x):
                if x not in reach:
                    seen, st = set(), [x]
                    while st:
                        for y in body.succ(st.pop()):
                            if y not in seen:
                                seen.add(y)
                                st.append(y)
                    reach[x] = seen
                return reach[x]
            cyc = [x for x in range(n) if self.cyclic(body, x)]
            for x in cyc:
                scc = {y for y in rs(x) if x in rs(y)}
                if not body.pred(x) or all(y in scc for y in body.pred(x)):
                    continue
                h, seen = x, set()
                while h not in seen and h in scc and len(set(body.succ(h))) == 1:
                    seen.add(h)
                    h = body.succ(h)[0]
                for p in scc - {h}:
                    if body.blocks[p]["t"][1] == "switch":
                        c |= {(p, y) for y in body.succ(p) if y not in scc and self.ipdom(body)[y] is not None}
            body.cache["dep_br"] = c
        return c

    def analyse(self, body, early=None, br=(), first=None):
        al = self.aliases(body)
        st = {}
        for i in range(1, body.argc + 1):
            st[(i, "")] = frozenset({(i, "*")})
        st["ctl"] = st["pend"] = E
        states, ends, work, n = {0: st}, {}, [0], 0
        while work:
            b = work.pop()
            n += 1
            if n > 4000:
                return None
            st = dict(states[b])
            blk = body.blocks[b]
            for s in blk["s"]:
                self.stmt(body, st, s, al)
            t = blk["t"]
            k = t[1]
            if k == "call":
                self.call(body, st, t, al)
            if self.strict and b in self.events(body) and st["pend"]:
                st["ctl"] = st["ctl"] | frozenset(a for _, a in st["pend"])
                st["pend"] = E
            if k == "switch":
                at = self.operand(body, st, t[2], al)
                if self.strict and self.ipdom(body)[b] is not None and not self.certain(body, b):
                    st["pend"] = st["pend"] | frozenset((b, a) for a in at)
                else:
                    st["ctl"] = st["ctl"] | at
            ends[b] = st
            for x in body.succ(b):
                # a loop runs, and takes each of its branches for some element
                u = self.may or self.cyclic(body, x) and first is None
                j = dict(states[0]) if x == 0 else None
                for p in sorted(set(body.pred(x))):
                    if p in ends:
                        e = self.edge(body, early[p] if (p, x) in br and p in early else ends[p], p, x)
                        j = dict(e) if j is None else self.join(j, e, u)
                if x not in states or j != states[x]:
                    states[x] = j
                    if x not in work:
                        work.append(x)
        if first is not None:
            first.update(ends)
            return None
        outs = [ends[b] for b in sorted(ends) if body.blocks[b]["t"][1] == "ret"]
        if not outs:
            return None
        st = outs[0]
        for o in outs[1:]:
            st = self.join(st, o, self.may)
        res = {"ret": self.entries(st, 0), "ctl": st["ctl"]}
        for i in range(1, body.argc + 1):
            if body.lty(i)["s"].startswith("&mut "):
                res[i] = self.entries(st, i)
        # a returned &mut self stands for the object
        if 0 in al and body.lty(0)["k"] == "ref":
            l, f, deep = self.place(body, (0, [["*"]]), al)
            if f is None and not deep:
                res["ret"] = self.entries(st, l)
        return res

    def edge(self, body, st, p, x):
        """what a branch decided counts once something lasting happens before its sides meet, or on the side that does nothing at all"""
        if not self.strict or not st["pend"]:
            return st
        st = dict(st)
        ip = self.ipdom(body)
        if body.blocks[p]["t"][1] == "switch" and ip[p] is not None and self.quiet(body, x, ip[p]):
            # alternatives of one condition (a || b): the earlier branches decided it as well
            qs = {p} | {q for q, _ in st["pend"] if ip[q] == ip[p] and self.otherwise(body, q, p, ip[p])}
            mine = frozenset(a for q, a in st["pend"] if q in qs)
            st["ctl"] = st["ctl"] | mine
            st["pend"] = frozenset(y for y in st["pend"] if y[0] not in qs)
        st["pend"] = frozenset((q, a) for q, a in st["pend"] if ip[q] != x and a not in st["ctl"])
        return st

    def otherwise(self, body, q, p, end):
        """branch q has a side that does not come to p and does something"""
        for y in body.succ(q):
            seen, st = {y, end}, [y]
            while st:
                for z in body.succ(st.pop()):
                    if z not in seen:
                        seen.add(z)
                        st.append(z)
            if p not in seen and not self.quiet(body, y, end):
                return True
        return False

    def ipdom(self, body):
        """immediate postdominator of each block (len(blocks) is the exit); None if the block never returns"""
        c = body.cache.get("ipdom")
        if c is None:
            n = len(body.blocks)
            rets = [i for i, b in enumerate(body.blocks) if b["t"][1] == "ret"]
            suc = lambda x: rets if x == n else body.pred(x)
            pre = lambda x: [] if x == n else body.succ(x) + ([n] if body.blocks[x]["t"][1] == "ret" else [])
            pd = mir._doms(n + 1, n, suc, pre)
            c = []
            for i in range(n):
                s = pd[i] if pd[i] is not None else ()
                ds = [d for d in s if d != i]
                c.append(max(ds, key=lambda d: len(pd[d])) if ds else None)
            body.cache["ipdom"] = c
        return c

    def events(self, body):
        """blocks that do something lasting: write a local which is read in another block, or pass on a &mut"""
        c = body.cache.get("dep_ev")
        if c is None:
            used = {}

            def scan(x, b):
                if isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                        used.setdefault(x[0], set()).add(b)
                    for y in x:
                        scan(y, b)
                elif isinstance(x, dict):
                    for y in x.values():
                        scan(y, b)
            for i, blk in enumerate(body.blocks):
                for s in blk["s"]:
                    if s[2][0] != "dead":
                        scan(s[2], i)
                t = blk["t"]
                if t[1] == "call":
                    scan(t[3], i)
                elif t[1] == "switch":
                    scan(t[2], i)
            c = set()
            for i, blk in enumerate(body.blocks):
                for s in blk["s"]:
                    l = s[1][0]
                    if s[2][0] != "dead" and (l <= body.argc or s[1][1] or used.get(l, set()) - {i}):
                        if s[2][0] in ("ref", "discr") or body.lty(l)["s"] == "bool" and s[2][0] in ("bin", "un"):
                            continue
                        c.add(i)
                t = blk["t"]
                if t[1] == "call":
                    if any("&mut " in body.lty((a.get("m") or a.get("c"))[0])["s"] for a in t[3] if a.get("m") or a.get("c")):
                        c.add(i)
                    elif t[4] and (t[4][0] <= body.argc or t[4][1] or body.lty(t[4][0])["s"] != "bool" and self.lasting(body, t[4][0], i, used)):
                        c.add(i)
            body.cache["dep_ev"] = c
        return c

    def lasting(self, body, l, i, used):
        """a call result is lasting when something other than a comparison or a branch in the following blocks reads it"""
        t = body.lty(l)
        return t["k"] != "ref"

    def certain(self, body, s):
        """one side of the branch does something lasting on all of its paths"""
        c = body.cache.setdefault("dep_cert", {})
        if s not in c:
            end, ev = self.ipdom(body)[s], self.events(body)
            c[s] = False
            for x in set(body.succ(s)):
                seen, st, miss = set(), [x], False
                while st and not miss:
                    y = st.pop()
                    if y == end:
                        miss = True
                    elif y not in seen and y not in ev:
                        seen.add(y)
                        st.extend(body.succ(y))
                if not miss and (seen or x in ev) and x != end and self.returns(body, x):
                    c[s] = True
        return c[s]

    def returns(self, body, x):
        """some return is reachable from x"""
        return self.ipdom(body)[x] is not None

    def quiet(self, body, x, end):
        """from x to end without a branch or an event"""
        seen = set()
        while x != end and x not in seen:
            seen.add(x)
            if x in self.events(body):
                return False
            ss = body.succ(x)
            if len(ss) != 1:
                return False
            x = ss[0]
        return x == end

    def cyclic(self, body, x):
        c = body.cache.setdefault("cyc", {})
        if x not in c:
            seen, st = set(), [x]
            while st:
                for y in body.succ(st.pop()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            c[x] = x in seen
        return c[x]

    def join(self, a, b, union=False):
        out = {}
        for k in set(a) | set(b):
            if k == "ctl":
                out[k] = a[k] | b[k] if union else a[k] & b[k]
                continue
            if k == "pend":
                pa, pb = {y[1] for y in a[k]}, {y[1] for y in b[k]}
                if union:
                    out[k] = frozenset(y for y in a[k] | b[k] if y[1] not in a["ctl"] | b["ctl"])
                else:
                    ca, cb = a["ctl"], b["ctl"]
                    out[k] = frozenset([y for y in a[k] if y[1] in pb or y[1] in cb] + [y for y in b[k] if y[1] in pa or y[1] in ca])
                continue
            l, f = k
            x = a[k] if k in a else self.read(a, l, f) if f else a.get((l, ""))
            y = b[k] if k in b else self.read(b, l, f) if f else b.get((l, ""))
            if x is None or y is None:
                # not initialised on one side
                out[k] = x if y is None else y
                continue
            if x != y:
                xs = {(i, f if z == "*" and f else z) for i, z in x}
                ys = {(i, f if z == "*" and f else z) for i, z in y}
                if union:
                    out[k] = x | y
                    continue
                # (i,'') implies any part
                out[k] = frozenset(p for p in xs | ys if (p in xs or (p[0], "") in xs) and (p in ys or (p[0], "") in ys))
            else:
                out[k] = x
        return out

    def operand(self, body, st, o, al):
        p = o.get("m") or o.get("c")
        if p is None:
            return E
        l, f, deep = self.place(body, p, al)
        return self.read(st, l, f)

    def objof(self, body, o, al):
        """operand -> (local, field) of the object it moves, copies or refers to"""
        p = o.get("m") or o.get("c")
        if p is None:
            return None
        l, projs = p
        if l in al and not projs:
            l, f, deep = self.place(body, (l, [["*"]]), al)
            return l, f, deep
        return self.place(body, p, al)

    def write(self, st, l, f, deep, d):
        if f is None and not deep:
            self.clear(st, l)
            st[(l, "")] = d
        elif f is not None and not deep:
            st[(l, f)] = d
        elif f is not None:
            st[(l, f)] = self.read(st, l, f) | d
        else:
            for k in [k for k in st if isinstance(k, tuple) and k[0] == l]:
                st[k] = st[k] | d
            st[(l, "")] = st.get((l, ""), E) | d

    def stmt(self, body, st, s, al):
        if s[2][0] == "dead":
            return
        l, f, deep = self.place(body, s[1], al)
        r = s[2]
        k = r[0]
        if k == "use":
            p = r[1].get("m") or r[1].get("c")
            if p is not None:
                sl, sf, sdeep = self.place(body, p, al)
                if sf is None and f is None and not deep:
                    e = self.entries(st, sl)
                    self.clear(st, l)
                    for kk, v in e.items():
                        st[(l, kk)] = v
                    return
            self.write(st, l, f, deep, self.operand(body, st, r[1], al))
        elif k == "ref":
            if not s[1][1] and s[1][0] in al:
                sl, sf, sd = self.place(body, r[2], al)
                if sf is None:
                    return self.copyto(st, s[1][0], self.entries(st, sl))
                return self.copyto(st, s[1][0], {"": self.read(st, sl, sf)})
            sl, sf, sd = self.place(body, r[2], al)
            self.write(st, l, f, deep, self.read(st, sl, sf))
        elif k == "agg":
            ops = r[2]
            names = None
            if r[1][0] == "adt" and f is None and not deep:
                a = self.P.adts[body.crate].get(r[1][1]) if body.crate in self.P.adts else None
                if a is None:
                    a = self.P.adts["ppt_rs"].get(r[1][1])
                if a and not a["enum"] and len(a["v"][0]["f"]) == len(ops):
                    names = [x[0] for x in a["v"][0]["f"]]
            elif r[1][0] == "tuple" and f is None and not deep:
                names = [str(i) for i in range(len(ops))]
            ds = [self.operand(body, st, o, al) for o in ops]
            if names is not None:
                self.clear(st, l)
                st[(l, "")] = E
                for n, d in zip(names, ds):
                    st[(l, n)] = d
            else:
                self.write(st, l, f, deep, frozenset().union(*ds) if ds else E)
        elif self.strict and k == "discr" and r[1][0] in self.nexts(body):
            # whether there is another element
            self.write(st, l, f, deep, self.sized(self.anyops(body, st, r, al)))
        elif self.strict and (k == "len" or k == "un" and "Metadata" in str(r[1])):
            self.write(st, l, f, deep, self.sized(self.anyops(body, st, r, al)))
        elif k in ("bin", "un", "cast", "discr", "repeat", "len"):
            self.write(st, l, f, deep, self.anyops(body, st, r, al))
        else:
            self.write(st, l, f, deep, self.anyops(body, st, r, al))

    def copyto(self, st, l, e):
        self.clear(st, l)
        for k, v in e.items():
            st[(l, k)] = v

    def anyops(self, body, st, r, al):
        out = set()

        def w(x):
            if isinstance(x, dict):
                if "m" in x or "c" in x:
                    out.update(self.operand(body, st, x, al))
            elif isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    l, f, deep = self.place(body, x, al)
                    out.update(self.read(st, l, f))
                else:
                    for y in x:
                        w(y)
        w(r[1:])
        return frozenset(out)

    def inst(self, body, st, atoms, t, al):
        out = set()
        for i, f in atoms:
            if i - 1 >= len(t[3]):
                continue
            if f.endswith("#"):
                out |= self.sized(self.inst(body, st, [(i, f[:-1])], t, al))
                continue
            ob = self.objof(body, t[3][i - 1], al)
            if ob is None:
                continue
            l, of, deep = ob
            if of is not None or deep:
                out |= self.read(st, l, of)
            elif f in ("", "*"):
                out |= self.read(st, l)
            else:
                out |= self.read(st, l, f)
        return frozenset(out)

    @staticmethod
    def sized(atoms):
        """only the number of elements is used"""
        return frozenset((i, f if f.endswith("#") else f + "#") for i, f in atoms)

    def call(self, body, st, t, al):
        n = mir.callee(t) or ""
        cb = self.P.body(self.P.callee_id(body, t)) if self.P.callee_id(body, t) else None
        s = self.summary(cb) if cb is not None and cb.argc == len(t[3]) else None
        dl, df, ddeep = self.place(body, t[4], al) if t[4] else (None, None, False)
        args = [self.operand(body, st, a, al) for a in t[3]]
        if self.strict and len(args) == 1 and n.split("::")[-1] in ("len", "is_empty", "capacity"):
            args = [self.sized(args[0])]
        if s is not None:
            ret = {}
            for f, at in s["ret"].items():
                # the same object passed through
                star = [x for x in at if x[1] == "*"]
                ret[f] = (self.inst(body, st, frozenset(x for x in at if x[1] != "*"), t, al), star)
            muts = {}
            for i in s:
                if isinstance(i, int):
                    muts[i] = {f: self.inst(body, st, frozenset(x for x in at if x[1] != "*"), t, al) | (
                        frozenset() if f == "" else self.inst(body, st, frozenset((j, f) for j, z in at if z == "*"), t, al)) for f, at in s[i].items()}
            ctl = self.inst(body, st, s["ctl"], t, al)
            new = {}
            for f, (d, star) in ret.items():
                if f == "":
                    new[""] = d
                    for j, _ in star:
                        ob = self.objof(body, t[3][j - 1], al) if j - 1 < len(t[3]) else None
                        if ob is None:
                            continue
                        l, of, deep = ob
                        if of is None and not deep:
                            for kk, v in self.entries(st, l).items():
                                new[kk] = new.get(kk, E) | v
                        else:
                            new[""] = new[""] | self.read(st, l, of)
            for f, (d, star) in ret.items():
                if f != "":
                    new[f] = d | self.inst(body, st, frozenset((j, f) for j, _ in star), t, al)
            for i, e in muts.items():
                ob = self.objof(body, t[3][i - 1], al)
                if ob is None:
                    continue
                l, of, deep = ob
                whole = frozenset().union(*e.values()) if e else E
                if of is not None or deep:
                    self.write(st, l, of, True, whole)
                else:
                    for f, d in e.items():
                        if f == "":
                            st[(l, "")] = st.get((l, ""), E) | d
                        else:
                            st[(l, f)] = d
            st["ctl"] = st["ctl"] | ctl
            if dl is not None:
                if df is None and not ddeep:
                    self.copyto(st, dl, new)
                else:
                    self.write(st, dl, df, ddeep, frozenset().union(*[self.rest(v, "") for v in new.values()]) if new else E)
            return
        whole = frozenset().union(*args) if args else E
        for j, a in enumerate(t[3]):
            p = a.get("m") or a.get("c")
            if p is None or p[1]:
                continue
            ty = body.lty(p[0])["s"]
            if ty.startswith("&mut ") or p[0] in al and ty.startswith("&mut"):
                l, f, deep = self.objof(body, a, al)
                self.write(st, l, f, True, whole) if f is not None else self.write(st, l, None, True, whole)
        if dl is not None and not (dl in al and not t[4][1]):
            self.write(st, dl, df, ddeep, frozenset(self.rest(whole, "")))
        elif dl is not None:
            self.copyto(st, dl, {"": frozenset(self.rest(whole, ""))})

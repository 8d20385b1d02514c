"""`iter.for_each(|x| body)` is read as `for x in iter { body }`: the call of for_each is replaced by the loop a `for`
is lowered to, the closure's blocks by copies in the caller, and captured places by the places themselves. A call the
rewriting does not understand (a closure used elsewhere too, an iterator with its own `next`) is left as it is."""
import collections

FOR_EACH = "core::iter::traits::iterator::Iterator::for_each"
NEXT = "core::iter::traits::iterator::Iterator::next"


def _isplace(x):
    return (isinstance(x, list) and len(x) == 2 and type(x[0]) is int and isinstance(x[1], list)
            and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]))


def _map(x, f):
    """copy of x with f applied to every place"""
    if _isplace(x):
        return f(x)
    if isinstance(x, list):
        return [_map(y, f) for y in x]
    if isinstance(x, dict):
        return {k: (v if k == "k" else _map(v, f)) for k, v in x.items()}
    return x


def _places(x, out):
    _map(x, lambda p: out.append(p) or p)
    return out


class _No(Exception):
    pass


class Desugar:
    def __init__(self, d):
        self.types = d["types"]
        self.bodies = {b["id"]: b for b in d["bodies"]}
        self.next = {}
        self.made = collections.Counter()
        for b in d["bodies"]:
            for x in b.get("blocks", ()):
                t = x["t"]
                if t[1] == "call":
                    k = t[2].get("k") or {}
                    if k.get("fn") == NEXT and k.get("a") and "res" in k:
                        self.next.setdefault(self.types[k["a"][0]].get("d") or "", k["res"])
                for s in x["s"]:
                    if len(s) > 2 and s[2][0] == "agg" and s[2][1] and s[2][1][0] == "closure":
                        self.made[s[2][1][1]] += 1

    def option(self, t):
        for i, y in enumerate(self.types):
            if y.get("d") == "core::option::Option" and y.get("a") == [t]:
                return i
        self.types.append({"s": "std::option::Option<%s>" % self.types[t].get("s"), "k": "adt", "d": "core::option::Option", "a": [t]})
        return len(self.types) - 1

    def ref(self, t):
        for i, y in enumerate(self.types):
            if y.get("k") == "ref" and y.get("m") == 1 and y.get("a") == [t]:
                return i
        self.types.append({"s": "&mut %s" % self.types[t].get("s"), "k": "ref", "m": 1, "a": [t]})
        return len(self.types) - 1

    def run(self):
        gone = set()
        # inner closures first
        for b in sorted(self.bodies.values(), key=lambda b: -b["id"].count("{closure")):
            i = 0
            while i < len(b.get("blocks", ())):
                x = b["blocks"][i]
                t = x["t"]
                if not x.get("cl") and t[1] == "call" and (t[2].get("k") or {}).get("fn") == FOR_EACH and len(t[3]) == 2 and t[5] >= 0:
                    try:
                        gone.add(self.one(b, i))
                    except _No:
                        pass
                i += 1
        return gone

    def one(self, b, i):
        x = b["blocks"][i]
        t = x["t"]
        line, it, clo = t[0], t[3][0], t[3][1]
        p = clo.get("m") or clo.get("c")
        if not p or p[1]:
            raise _No
        cl = p[0]
        where = []
        for bi, y in enumerate(b["blocks"]):
            for si, s in enumerate(y["s"]):
                if len(s) > 2 and s[1] == [cl, []]:
                    if s[2][0] == "dead":
                        continue
                    where.append((bi, si, s))
        if len(where) != 1 or where[0][2][2][0] != "agg" or where[0][2][2][1][0] != "closure":
            raise _No
        bi, si, s = where[0]
        cid, ops = s[2][1][1], s[2][2]
        c = self.bodies.get(cid)
        if c is None or self.made[cid] != 1 or c.get("argc") != 2:
            raise _No
        n = self.uses(b, cl)
        if n != 2:          # built once, used once
            raise _No
        itp = it.get("m") or it.get("c")
        if not itp or itp[1]:
            raise _No
        ity = b["locals"][itp[0]]
        d = self.types[ity].get("d") or ""
        if d.startswith("crate::"):
            raise _No
        base = len(b["locals"])
        loc = list(b["locals"])
        names = dict(b.get("names", {}))
        # what the closure captured
        refs = {}
        for y in b["blocks"]:
            for q in y["s"]:
                if len(q) > 2 and not q[1][1]:
                    if q[2][0] != "dead":
                        refs.setdefault(q[1][0], []).append(q[2])
            if y["t"][1] == "call" and not y["t"][4][1]:
                refs.setdefault(y["t"][4][0], []).append(None)
        caps, direct = {}, {}
        for k, o in enumerate(ops):
            q = o.get("m") or o.get("c")
            if q and not q[1]:
                r = refs.get(q[0], [])
                if len(r) == 1 and r[0] and r[0][0] == "ref" and all(e[0] in ("*", "f") for e in r[0][2][1]):
                    direct[k] = r[0][2]
        tys = {}
        for pl in _places([[y["s"], y["t"]] for y in c["blocks"] if not y.get("cl")], []):
            if pl[0] == 1:
                if len(pl[1]) < 2 or pl[1][0] != ["*"] or pl[1][1][0] != "f":
                    raise _No
                tys[pl[1][1][1]] = pl[1][1][4]
        for k, ty in tys.items():
            if k >= len(ops):
                raise _No
            caps[k] = len(loc)
            loc.append(ty)
        item = c["locals"][2]
        lit, lref, lopt, ldis = (len(loc) + j for j in range(4))
        loc += [ity, self.ref(ity), self.option(item), self.discr()]
        ren = {}
        for l, ty in enumerate(c["locals"]):
            if l == 1:
                continue
            ren[l] = len(loc)
            loc.append(ty)
            if str(l) in c.get("names", {}):
                names[str(ren[l])] = c["names"][str(l)]

        # a pattern parameter is taken apart where a `for` takes the element apart
        pattern = "2" not in c.get("names", {})
        elem = [["d", 1, "Some"], ["f", 0, "0", "core::option::Option", item]]

        def place(pl):
            l, pr = pl
            pr = [["i", ren[e[1]]] if e[0] == "i" else e for e in pr]
            if l == 2 and pattern:
                return [lopt, elem + pr]
            if l != 1:
                return [ren[l], pr]
            k = pr[1][1]
            if k in direct and len(pr) > 2 and pr[2] == ["*"]:
                return [direct[k][0], list(direct[k][1]) + pr[3:]]
            return [caps[k], pr[2:]]

        nb = len(b["blocks"])
        head, sw, un, out, first = nb, nb + 1, nb + 2, nb + 3, nb + 4
        tgt = {j: first + j for j in range(len(c["blocks"]))}
        nk = {"fn": NEXT, "crate": "core", "a": [ity], "trait": "core::iter::traits::iterator::Iterator", "name": "next",
              "res": self.next.get(d) or "<%s as core::iter::traits::iterator::Iterator>::next" % (d or "I"), "rk": "Item", "ra": list(self.types[ity].get("a") or [])}
        new = [
            {"s": [[line, [lref, []], ["ref", 1, [lit, []]]]], "t": [line, "call", {"t": t[2].get("t", -1), "k": nk}, [{"m": [lref, []]}], [lopt, []], sw, t[6] if len(t) > 6 else 1]},
            {"s": [[line, [ldis, []], ["discr", [lopt, []]]]], "t": [line, "switch", {"m": [ldis, []]}, [[0, out], [1, first]], un]},
            {"s": [], "t": [line, "unreach"]},
            {"s": [[line, [lopt, []], ["dead"]], [line, t[4], ["use", {"t": c["locals"][0], "k": {"z": 1}}]]], "t": [line, "goto", t[5]]},
        ]
        for j, y in enumerate(c["blocks"]):
            u = y["t"]
            if y.get("cl"):     # unwinding: no edge leads here
                new.append({"cl": 1, "s": [], "t": u})
                continue
            st = [_map(q, place) for q in y["s"]]
            k = u[1]
            if k == "ret":
                v = [u[0], "goto", head]
            elif k == "goto":
                v = [u[0], "goto", tgt[u[2]]] + u[3:]
            elif k == "switch":
                v = [u[0], k, _map(u[2], place), [[a, tgt[z]] for a, z in u[3]], tgt[u[4]] if u[4] in tgt else u[4]] + u[5:]
            elif k == "drop":
                v = [u[0], k, place(u[2]), tgt[u[3]]] + u[4:]
            elif k == "call":
                v = [u[0], k, _map(u[2], place), _map(u[3], place), place(u[4]), tgt[u[5]] if u[5] >= 0 else u[5]] + u[6:]
            elif k == "assert":
                v = [u[0], k, _map(u[2], place), u[3], u[4], _map(u[5], place), tgt[u[6]]] + u[7:]
            elif k in ("unreach", "resume", "abort", "other"):
                v = u
            else:
                raise _No
            z = {key: val for key, val in y.items() if key not in ("s", "t")}
            if j == 0 and not pattern:
                st.insert(0, [line, [ren[2], []], ["use", {"m": [lopt, elem]}]])
            z.update(s=st, t=v)
            new.append(z)
        # commit
        b["locals"], b["names"] = loc, names
        y = b["blocks"][bi]
        y["s"][si:si + 1] = [[s[0], [caps[k], []], ["use", ops[k]]] for k in sorted(caps)]
        x["s"].append([line, [lit, []], ["use", it]])
        x["t"] = [line, "goto", head]
        b["blocks"].extend(new)
        for o in self.bodies.values():
            if o.get("parent") == cid:
                o["parent"] = b["id"]
        return cid

    def discr(self):
        for i, y in enumerate(self.types):
            if y.get("s") == "isize":
                return i
        self.types.append({"s": "isize", "k": "int"})
        return len(self.types) - 1

    @staticmethod
    def uses(b, l):
        n = 0
        for y in b["blocks"]:
            if y.get("cl"):
                continue
            for q in y["s"]:
                if len(q) > 2 and q[2][0] != "dead":
                    n += sum(p[0] == l for p in _places(q, []))
            if y["t"][1] != "drop":
                n += sum(p[0] == l for p in _places(y["t"], []))
        return n


def run(d):
    """rewrites the facts of one crate in place; returns the ids of the closures that were inlined"""
    last, n = d["types"][-1], len(d["types"])
    gone = Desugar(d).run()
    if len(d["types"]) > n:
        d["types"].append(last)     # -1 stands for "no type"; it keeps meaning what it did
    if gone:
        d["bodies"] = [b for b in d["bodies"] if b["id"] not in gone]
    return gone

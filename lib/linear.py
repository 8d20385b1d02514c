"""Affine data flow over MIR: what each numeric location holds as constant + sum(coefficient * input), exact rationals, with
structs tracked field by field, references as places and local calls inlined.  Rounding, truncation and clamping are transparent.
Values that differ on joining paths become a finite set of alternatives, anything else is unknown."""
import re
from fractions import Fraction as F

TOP = ("top",)
ROUND = {"round", "floor", "ceil", "trunc", "clamp", "abs", "rem_euclid"}
SAME = {"to_string", "as_str", "clone", "into", "from", "to_owned", "deref", "deref_mut", "borrow", "as_ref", "as_mut", "unwrap", "expect", "try_from", "try_into", "as_deref",
        "unwrap_or", "unwrap_or_default", "cloned", "copied", "new_unchecked"}
ARITH = {"mul": "Mul", "add": "Add", "sub": "Sub", "div": "Div", "saturating_mul": "Mul", "wrapping_mul": "Mul", "saturating_add": "Add",
         "saturating_sub": "Sub", "wrapping_add": "Add", "wrapping_sub": "Sub", "checked_mul": "Mul", "checked_add": "Add", "checked_sub": "Sub", "neg": "Neg"}
MAXALT = 12


def lin(c, t=()):
    return ("lin", F(c), tuple(sorted((a, k) for a, k in dict(t).items() if k)))


def num(v):
    if v[0] == "sym":
        return lin(0, {v[1]: F(1)})
    return v if v[0] == "lin" else None


def deps(v, d=0):
    """names of the inputs a value depends on; "?" when it may depend on anything"""
    k = v[0]
    if k == "lin":
        return frozenset(a for a, _ in v[2])
    if k == "sym":
        return frozenset((v[1],))
    if k == "ext":
        return v[1]
    if k == "adt":
        r = deps(v[3], d + 1) if v[3] else frozenset()
        for _, x in v[4]:
            r |= deps(x, d + 1)
        return r
    if k in ("alt", "clo"):
        r = frozenset()
        for x in (v[1] if k == "alt" else v[2]):
            r |= deps(x, d + 1)
        return r
    return frozenset() if k == "disc" else frozenset(("?",)) if k == "top" else frozenset()


def ext(vals):
    r = frozenset()
    for v in vals:
        r |= deps(v)
    return ("ext", r)


def alts(v):
    return v[1] if v[0] == "alt" else frozenset((v,))


def join(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return a or b
    if a == TOP or b == TOP:
        return TOP
    if a[0] == "adt" and b[0] == "adt" and a[1:4] == b[1:4]:
        fa, fb = dict(a[4]), dict(b[4])
        out = {}
        for k in set(fa) | set(fb):
            x = fa[k] if k in fa else fieldof(a, k)
            y = fb[k] if k in fb else fieldof(b, k)
            out[k] = join(x, y)
        return ("adt", a[1], a[2], a[3], tuple(sorted(out.items())))
    if a[0] == "sym" and b[0] == "adt" and b[3] == a:
        return join(("adt", b[1], b[2], a, ()), b)
    if b[0] == "sym" and a[0] == "adt" and a[3] == b:
        return join(a, ("adt", a[1], a[2], b, ()))
    s = alts(a) | alts(b)
    es = [x for x in s if x[0] == "ext"]
    if len(es) > 1:
        s = frozenset(x for x in s if x[0] != "ext") | {ext(es)}
        if len(s) == 1:
            return next(iter(s))
    return ("alt", s) if len(s) <= MAXALT else TOP


def fieldof(v, f):
    if v[0] == "ext":
        return v
    if v[0] == "sym":
        return ("sym", v[1] + "." + f)
    if v[0] == "adt":
        for k, x in v[4]:
            if k == f:
                return x
        return fieldof(v[3], f) if v[3] else TOP
    if v[0] == "alt":
        r = None
        for x in v[1]:
            y = fieldof(x, f)
            r = y if r is None else join(r, y)
        return r
    return TOP


def setfield(v, path, x, adt):
    if not path:
        return x
    f = path[0]
    sub = setfield(fieldof(v, f), path[1:], x, "?")
    if v[0] == "adt":
        d = dict(v[4])
        d[f] = sub
        return ("adt", v[1], v[2], v[3], tuple(sorted(d.items())))
    if v[0] == "sym":
        return ("adt", "?", None, v, ((f, sub),))
    return ("adt", "?", None, None, ((f, sub),))


class Linear:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.unknown_calls = {}
        self.functions = set()

    def adt(self, body, name):
        return self.P.adts.get(body.crate, {}).get(name) or self.P.adts.get("ppt_rs", {}).get(name)

    def binop(self, op, a, b):
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a[0] == "alt" or b[0] == "alt":
            r = None
            for x in alts(a):
                for y in alts(b):
                    z = self.binop(op, x, y)
                    r = z if r is None else join(r, z)
            return r
        x, y = num(a), num(b)
        if x is None or y is None:
            return ext((a, b))
        if op in ("Add", "Sub"):
            k = 1 if op == "Add" else -1
            t = dict(x[2])
            for at, c in y[2]:
                t[at] = t.get(at, 0) + k * c
            return lin(x[1] + k * y[1], t)
        if op == "Mul":
            if not x[2]:
                x, y = y, x
            if not y[2]:
                return lin(x[1] * y[1], {at: c * y[1] for at, c in x[2]})
        if op == "Div" and not y[2] and y[1]:
            return lin(x[1] / y[1], {at: c / y[1] for at, c in x[2]})
        return ext((a, b))

    # ------------------------------------------------------------------ one function
    def run(self, body, args, depth=0):
        """(value of the result, final values behind the parameters)"""
        key = (body.id, tuple(args))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (TOP, list(args))
        self.functions.add(body.id)
        r = self._run(body, args, depth)
        self.memo[key] = r
        return r

    def _run(self, body, args, depth):
        init = {}
        for i in range(body.argc):
            init[i + 1] = args[i] if i < len(args) else TOP
        ins, visits = {0: init}, {}
        work, ret, outs = [0], None, None
        while work:
            b = work.pop()
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 12:
                continue
            st = dict(ins[b])
            blk = body.blocks[b]
            for s in blk["s"]:
                self.assign(body, st, s)
            t = blk["t"]
            k = t[1]
            nxt = []
            if k == "ret":
                v = self.deep(body, st, st.get(0, TOP), keep=True)
                ret = v if ret is None else join(ret, v)
                o = [self.deep(body, st, st.get(i + 1, TOP), keep=True) for i in range(body.argc)]
                outs = o if outs is None else [join(x, y) for x, y in zip(outs, o)]
                continue
            if k == "call":
                self.call(body, st, t, depth)
                if t[5] >= 0:
                    nxt = [(t[5], st)]
            elif k == "switch":
                nxt = self.switch(body, st, t)
            else:
                nxt = [(x, st) for x in body.succ(b)]
            for n, s2 in nxt:
                if body.blocks[n].get("cl"):
                    continue
                if n not in ins:
                    ins[n] = dict(s2)
                    work.append(n)
                else:
                    ch, cur = False, ins[n]
                    for l in set(cur) | set(s2):
                        if l not in cur or l not in s2:
                            y = cur.get(l, s2.get(l))
                        elif visits.get(n, 0) > 6:
                            y = cur[l] if cur[l] == s2[l] else TOP
                        else:
                            y = join(cur[l], s2[l])
                        if cur.get(l) != y:
                            cur[l] = y
                            ch = True
                    if ch:
                        work.append(n)
        return (TOP if ret is None else ret), (outs or list(args))

    def switch(self, body, st, t):
        v = self.operand(body, st, t[2])
        arms = [(x[0], x[1]) for x in t[3]]
        if v[0] == "lin" and not v[2]:
            for val, tgt in arms:
                if val == v[1]:
                    return [(tgt, st)]
            return [(t[4], st)]
        if v[0] == "disc":
            a = self.adt(body, v[1])
            if a:
                for i, x in enumerate(a["v"]):
                    if x["n"] == v[2]:
                        for val, tgt in arms:
                            if val == x["d"]:
                                return [(tgt, st)]
                        return [(t[4], st)]
        out = [(tgt, st) for _, tgt in arms]
        if body.blocks[t[4]]["t"][1] != "unreach":
            out.append((t[4], st))
        return out

    def place(self, body, st, p):
        l, projs = p
        v = st.get(l, TOP)
        for e in projs:
            v = self.proj(body, st, v, e)
        return v

    def proj(self, body, st, v, e):
        if e[0] == "*":
            return self.follow(st, v)
        if e[0] == "f":
            return fieldof(self.follow(st, v), e[2] if len(e) > 2 and e[2] not in (None, "") else str(e[1]))
        if e[0] == "d":
            v = self.follow(st, v)
            if v[0] == "sym":
                return ("sym", v[1] + "@" + str(e[2]))
            if v[0] == "alt":
                keep = frozenset(x for x in v[1] if x[0] != "adt" or x[2] in (None, e[2]))
                return next(iter(keep)) if len(keep) == 1 else ("alt", keep) if keep else TOP
            return v
        return ext((self.follow(st, v),))

    def follow(self, st, v):
        n = 0
        while v[0] == "ref" and n < 8:
            n += 1
            x = st.get(v[1], TOP)
            for f in v[2]:
                x = fieldof(self.follow(st, x), f)
            v = x
        return v

    def target(self, st, p):
        """(local, path) a place denotes, references followed"""
        l, path = p[0], []
        for e in p[1]:
            if e[0] == "*":
                v = st.get(l, TOP)
                for f in path:
                    v = fieldof(v, f)
                if v[0] == "ref":
                    l, path = v[1], list(v[2])
            elif e[0] == "f":
                path.append(e[2] if len(e) > 2 and e[2] not in (None, "") else str(e[1]))
            elif e[0] == "d":
                continue
            else:
                return l, path, False
        return l, path, True

    def write(self, body, st, p, v):
        l, path, exact = self.target(st, p)
        if not exact:
            v = TOP
        if not path:
            st[l] = v
        else:
            st[l] = setfield(st.get(l, TOP), path, v, "")

    def operand(self, body, st, o):
        if "k" in o:
            v = self.const(body, o["k"], o.get("t"))
            return ("ext", frozenset()) if v == TOP else v
        return self.place(body, st, o.get("c") or o.get("m"))

    def const(self, body, k, t=None):
        if not isinstance(k, dict):
            return TOP
        for n in ("i", "f"):
            if n in k:
                try:
                    return lin(F(k[n]) if n == "i" else F(str(k[n])))
                except (ValueError, OverflowError):
                    return TOP
        if "b" in k:
            return lin(int(k["b"]))
        if isinstance(k.get("str"), str):
            return ("str", k["str"])
        if "ref" in k:
            return self.const(body, k["ref"])
        if "var" in k and t is not None and t >= 0:
            return ("adt", body.ty(t).get("d", "?"), k["var"], None, tuple((str(i), self.const(body, x)) for i, x in enumerate(k.get("f", []) or [])))
        return TOP

    def assign(self, body, st, s):
        p, r = s[1], s[2]
        k = r[0]
        if k == "dead":
            st.pop(p[0], None)
            return
        if k == "use":
            v = self.operand(body, st, r[1])
        elif k == "ref":
            l, path, exact = self.target(st, r[2])
            if not exact or any(e[0] == "d" for e in r[2][1]) or r[1] != 1:
                v = self.deep(body, st, self.place(body, st, r[2]), keep=True)
            elif 1 <= l <= body.argc and not path and body.lty(l)["k"] == "ref":
                v = ("ref", l, ())
            else:
                v = ("ref", l, tuple(path))
        elif k == "cast":
            v = self.operand(body, st, r[2])
        elif k == "bin":
            v = self.binop(r[1], self.operand(body, st, r[2]), self.operand(body, st, r[3]))
            if r[1].endswith("WithOverflow"):
                v = ("adt", "tuple", "", None, (("0", v), ("1", TOP)))
        elif k == "un":
            v = self.operand(body, st, r[2])
            v = self.binop("Mul", v, lin(-1)) if r[1] == "Neg" else TOP
        elif k == "discr":
            x = self.follow(st, self.place(body, st, r[1]))
            v = ("disc", x[1], x[2]) if x[0] == "adt" and x[2] else TOP
        elif k == "agg":
            h = r[1]
            vs = [self.operand(body, st, o) for o in r[2]]
            if h[0] == "adt":
                a = self.adt(body, h[1])
                var = next((x for x in a["v"] if x["n"] == h[3]), a["v"][0]) if a else None
                names = [f[0] for f in var["f"]] if var else [str(i) for i in range(len(vs))]
                v = ("adt", h[1], h[3], None, tuple(sorted(zip(names, vs))))
            elif h[0] in ("tuple", "array"):
                v = ("adt", h[0], "", None, tuple((str(i), x) for i, x in enumerate(vs)))
            elif h[0] == "closure":
                v = ("clo", self.P.resolve_id(body.crate, h[1]), tuple(self.deep(body, st, x) for x in vs))
            else:
                v = TOP
        else:
            v = TOP
        self.write(body, st, p, v)

    def deep(self, body, st, v, keep=False):
        """value with references to the locals of this frame replaced by what they hold"""
        if v[0] == "ref":
            if keep and 1 <= v[1] <= body.argc and body.lty(v[1])["k"] == "ref":
                return v if not v[2] else self.follow(st, v)
            return self.deep(body, st, self.follow(st, v), keep)
        if v[0] == "adt":
            return ("adt", v[1], v[2], v[3], tuple((k, self.deep(body, st, x, keep)) for k, x in v[4]))
        return v

    def call(self, body, st, t, depth):
        k = (t[2] or {}).get("k") or {}
        name = self.P.resolve_id(body.crate, k.get("res") or k.get("fn") or "") if k else ""
        ops = [self.operand(body, st, a) for a in t[3]]
        vals = [self.deep(body, st, self.follow(st, v)) for v in ops]
        last = name.split("::")[-1]
        b = self.P.body(name) if name else None
        res = ext(vals)
        if b is not None and b.crate == "ppt_rs" and depth < 12 and not (b.derived and last == "clone"):
            res, outs = self.run(b, vals, depth + 1)
            for i, v in enumerate(ops):
                if v[0] == "ref" and i < len(outs) and b.lty(i + 1)["k"] == "ref":
                    cur = st.get(v[1], TOP)
                    st[v[1]] = setfield(cur, list(v[2]), outs[i], "") if v[2] else outs[i]
            res = self.back(res, ops)
        elif last in ("eq", "ne") and len(vals) == 2 and vals[0][0] == "str" and vals[1][0] == "str":
            res = lin(int((vals[0] == vals[1]) == (last == "eq")))
        elif last in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim") and vals and vals[0][0] == "str":
            res = ("str", vals[0][1].strip() if last == "trim" else vals[0][1].lower() if "lower" in last else vals[0][1].upper())
        elif last in ("eq_ignore_ascii_case",) and len(vals) == 2 and vals[0][0] == "str" and vals[1][0] == "str":
            res = lin(int(vals[0][1].lower() == vals[1][1].lower()))
        elif last in ARITH and vals:
            op = ARITH[last]
            res = self.binop("Mul", vals[0], lin(-1)) if op == "Neg" else self.binop(op, vals[0], vals[1]) if len(vals) > 1 else TOP
        elif last in ROUND and vals:
            res = vals[0]
        elif last in ("max", "min") and len(vals) == 2:
            x, y = num(vals[0]), num(vals[1])
            if x and y and (not x[2]) != (not y[2]):
                res = x if x[2] else y
        elif last in SAME and vals:
            res = vals[0]
            if last in ("unwrap", "expect", "unwrap_or", "unwrap_or_default") and res[0] == "adt":
                res = fieldof(res, "0") if res[2] in ("Some", "Ok") else ext(vals)
        elif last in ("map", "and_then") and len(vals) == 2 and vals[0][0] == "adt" and vals[0][2] == "Some" and vals[1][0] == "clo":
            cb = self.P.body(vals[1][1])
            if cb is not None:
                r, _ = self.run(cb, [("adt", "clo", "", None, tuple((str(i), x) for i, x in enumerate(vals[1][2]))), fieldof(vals[0], "0")], depth + 1)
                res = ("adt", vals[0][1], "Some", None, (("0", r),)) if last == "map" else r
        else:
            self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
            for v in ops:                      # what an unknown callee may have changed
                if v[0] == "ref":
                    cur = st.get(v[1], TOP)
                    st[v[1]] = setfield(cur, list(v[2]), ext(vals), "") if v[2] else ext(vals)
        self.write(body, st, t[4], res)

    def back(self, v, ops):
        if v[0] == "ref":
            i = v[1] - 1
            if i < len(ops) and ops[i][0] == "ref":
                return ("ref", ops[i][1], tuple(ops[i][2]) + tuple(v[2]))
            return ops[i] if i < len(ops) else TOP
        return v


def show(v, d=0):
    if v[0] == "lin":
        t = " + ".join([str(v[1])] * bool(v[1] or not v[2]) + ["%s*%s" % (k, a) if k != 1 else a for a, k in v[2]])
        return t
    if v[0] == "sym":
        return v[1]
    if v[0] == "adt":
        return "%s{%s}" % (v[2] or v[1].split("::")[-1], ", ".join("%s: %s" % (k, show(x, d + 1)) for k, x in v[4])) if d < 3 else "…"
    if v[0] == "str":
        return repr(v[1])
    if v[0] == "ext":
        return "f(%s)" % ", ".join(sorted(v[1]))
    if v[0] == "alt":
        return "one of (%s)" % " | ".join(sorted(show(x, d + 1) for x in v[1]))
    return v[0]

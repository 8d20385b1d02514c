"""Conditions a block of a function is necessarily reached under: (data, outcome) for every switch edge each way to it goes through."""
import re
import mir
from c_export import Whether, origin

EMIT = re.compile(r"(push_str|write_fmt|write_str|format|extend|extend_from_slice|push|to_string|to_owned|from|into|concat|join|insert_str)$")


class Conds(Whether):
    def nec(self, b, bi):
        """[(switch, successors)] of this round of the loop"""
        out = []
        heads = [x for x in b.reach() if b.blocks[x]["t"][1] == "call" and (mir.callee(b.blocks[x]["t"]) or "").endswith("::next") and self.D.cyclic(b, x)]
        heads += list(self.R.guards(b))
        for w in self.deciders(b, {bi}):
            if bi in self.reach(b, 0, {w}):
                continue
            ss = [s for s in b.succ(w) if b.blocks[s]["t"][1] != "unreach"]
            stop = {h for h in heads if w in self.reach(b, h, ())} - {bi}
            can = frozenset(s for s in ss if bi in self.reach(b, s, stop))
            if can and len(can) < len(set(ss)):
                out.append((w, can))
        return out

    def facts(self, fr, bi, d=0):
        out = []
        for w, can in self.nec(fr.body, bi):
            t = fr.body.blocks[w]["t"]
            v = self.cond(fr, w)
            if v.k == "discr" and v.a[0].k == "ext" and v.a[0].a[0].endswith("::next") or w in self.R.guards(fr.body):
                continue
            vals = frozenset(str(x) for x, s in t[3] if s in can) | (frozenset(["else"]) if t[4] in can else frozenset())
            self.split(v, vals, out, d)
        return out

    def split(self, v, vals, out, d):
        truth = None if len(vals) != 1 or vals <= {"1"} and v.k == "discr" else ("0" not in vals)
        while v.k == "un" and v.a[0] == "Not" and truth is not None:
            v, truth = v.a[1], not truth
        if d < 4 and truth is not None:
            fr, l = (v.a[0], v.a[1]) if v.k in ("loc", "phi") else (v.a[0], 0) if v.k == "app" else (None, None)
            if fr is not None and fr.body.derived:
                return
            if fr is not None and fr.body.lty(l)["s"] == "bool":
                ds = self.R.defs(fr.body).info[l].full
                ok = []
                for x in ds:
                    y = self.R.defval(fr, x)
                    if not (y.k == "c" and (str(y.a[1]).lower() in ("1", "true")) != truth):
                        ok.append((x, y))
                if len(ok) == 1 and len(ds) >= 1:
                    x, y = ok[0]
                    out.extend(self.facts(fr, x[0], d + 1))
                    if y.k != "c":
                        self.split(y, frozenset(["else" if truth else "0"]), out, d + 1)
                    return
                if len(ds) > 1:
                    return          # one of several conditions
        opt = v.a[0] if v.k == "discr" else v
        if opt.k == "ext" and opt.a[0].split("::")[-1] in ("filter", "is_some_and", "is_none_or") and "Option" in opt.a[0] and len(opt.a[1]) > 1:
            for y, q in ((opt.a[1][0], "=1"), (self.R.call_value(opt.a[1][1], (self.R.pay(opt.a[1][0]),), None), "holds")):
                self.fact(y, q, out)
            return
        if v.k == "discr" and len(vals) == 1:
            pol = "=" + ("1" if vals == {"else"} and "Option" in str(v.a) else next(iter(vals)))
        elif v.k == "ext" and truth is not None:
            m = v.a[0].split("::")[-1]
            m, truth = ("eq", not truth) if m == "ne" else (m, truth)
            m, truth = ("is_some", not truth) if m == "is_none" else (m, truth)
            pol = ("=1" if truth else "=0") if m == "is_some" else m + str(truth)
        elif v.k == "bin" and truth is not None:
            m = v.a[0]
            m, truth = ("Eq", not truth) if m == "Ne" else (m, truth)
            pol = m + str(truth)
        else:
            pol = "=" + ",".join(sorted(vals))
        self.fact(v, pol, out)

    def fact(self, v, pol, out):
        if v is None:
            return
        lv, ops = self.walk(v)
        fs = frozenset(o for o in (re.sub(r"\{\w+\}", "", origin(x)) for x in lv) if re.search(r"[.\[]", o) and not o.startswith("?"))
        if fs:
            out.append((fs, pol, frozenset(ops)))


def emits(c, b, bi):
    """does block bi put text somewhere"""
    blk = b.blocks[bi]
    t = blk["t"]
    if t[1] == "call":
        n = mir.callee(t) or ""
        if EMIT.search(n):
            return True
        y = c.P.body(n)
        if y is not None and y.crate == "ppt_rs" and ("String" in y.lty(0)["s"] or any("&mut std::string::String" in y.lty(i)["s"] for i in range(1, y.argc + 1))):
            return True
        return any(isinstance(a, dict) and "'str'" in str(a) for a in t[3])
    return any("'str'" in str(s[2]) for s in blk["s"] if len(s) > 2)

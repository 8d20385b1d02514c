"""Path rules over MIR control-flow graphs: where a Result goes, which blocks are reachable without passing a guard,
and how every path from a block ends."""
import mir


def plocal(o):
    """local of a copied/moved operand without projections, or None"""
    p = o.get("c") or o.get("m") if isinstance(o, dict) else None
    return p[0] if p and not p[1] else None


def oplocal(o):
    p = o.get("c") or o.get("m") if isinstance(o, dict) else None
    return p[0] if p else None


def const_int(o):
    k = o.get("k") if isinstance(o, dict) else None
    if isinstance(k, dict):
        for f in ("i", "u", "b", "v", "int"):
            if f in k and isinstance(k[f], (int, bool)):
                return int(k[f])
    return None


ADAPT = ("map", "map_err", "and_then", "or_else", "or", "and", "inspect", "inspect_err", "copied", "cloned", "as_ref", "as_mut",
         "as_deref", "branch", "from_residual", "from_output", "context", "with_context", "into", "from", "transpose", "flatten",
         "ok_or", "ok_or_else", "zip", "take", "filter")
SWALLOW = ("unwrap_or", "unwrap_or_default", "map_or", "map_or_else", "unwrap_or_else", "is_some_and", "is_ok_and", "iter", "into_iter",
           "is_none_or")


def uses(body):
    """local -> [(kind, block, info)] of every non-cleanup use"""
    if "uses" in body.cache:
        return body.cache["uses"]
    u = {}

    def add(l, *x):
        u.setdefault(l, []).append(x)

    for bi, b in enumerate(body.blocks):
        if b.get("cl"):
            continue
        for s in b["s"]:
            dst, r = s[1], s[2]
            if not isinstance(r, list) or r[0] == "dead":
                continue
            if dst and dst[1] and r[0] != "dead":
                pass
            k = r[0]
            if k == "use" or k == "cast":
                o = r[1] if k == "use" else r[2]
                p = o.get("c") or o.get("m")
                if p:
                    add(p[0], "copy" if not p[1] else "proj", bi, dst)
            elif k == "discr":
                add(r[1][0], "discr" if not r[1][1] else "discrp", bi, dst)
            elif k == "ref":
                add(r[2][0], "ref" if not r[2][1] or r[2][1] == [["*"]] else "proj", bi, dst)
            elif k in ("bin", "un", "repeat"):
                for o in r[1:]:
                    l = oplocal(o)
                    if l is not None:
                        add(l, "op", bi, dst)
            elif k == "agg":
                for o in r[2]:
                    l = oplocal(o)
                    if l is not None:
                        add(l, "agg", bi, dst)
        t = b["t"]
        if t[1] == "call":
            for i, a in enumerate(t[3]):
                l = oplocal(a)
                if l is not None:
                    p = a.get("c") or a.get("m")
                    add(l, "arg" if not p[1] else "proj", bi, i)
            l = oplocal(t[2])
            if l is not None:
                add(l, "callee", bi, None)
        elif t[1] == "switch":
            l = oplocal(t[2])
            if l is not None:
                add(l, "switch", bi, None)
        elif t[1] == "drop":
            add(t[2][0], "drop", bi, None)
    body.cache["uses"] = u
    return u


def fate(body, bi):
    """what happens to the value returned by the call ending block bi: (kinds, aliases)
    kinds: switch, returned, stored, passed, unwrap, swallow, ok, bool, dropped-explicitly"""
    t = body.blocks[bi]["t"]
    if t[4][1]:
        return {"stored"}, {}
    u = uses(body)
    kinds, seen = set(), {}
    st = [(t[4][0], "res")]
    while st:
        l, mode = st.pop()
        if l in seen:
            continue
        seen[l] = mode
        if l == 0:
            kinds.add("returned")
            continue
        for x in u.get(l, ()):
            k, b, info = x
            if k == "copy":
                if info[1]:
                    kinds.add("stored")
                else:
                    st.append((info[0], mode))
            elif k in ("proj",):
                kinds.add("switch")
            elif k == "discr":
                kinds.add("switch")
            elif k == "ref":
                if info[1]:
                    kinds.add("stored")
                else:
                    st.append((info[0], mode))
            elif k == "agg":
                kinds.add("stored")
            elif k in ("op", "switch"):
                kinds.add("switch")
            elif k == "arg":
                ct = body.blocks[b]["t"]
                n = (mir.callee(ct) or "").split("::")[-1]
                full = mir.callee(ct) or ""
                std = full.startswith(("core::", "std::", "alloc::", "<core::", "<std::", "<alloc::")) or ".branch" in full
                if info == 0 and (std and n in ADAPT or n in ("branch", "from_residual")):
                    if n == "branch":
                        kinds.add("returned")
                    if not ct[4][1]:
                        st.append((ct[4][0], mode))
                elif info == 0 and std and n in ("ok", "err"):
                    kinds.add("ok")
                    if not ct[4][1]:
                        st.append((ct[4][0], "opt"))
                elif info == 0 and n in ("is_ok", "is_err", "is_some", "is_none"):
                    kinds.add("bool")
                elif info == 0 and n in ("unwrap", "expect", "unwrap_err", "expect_err"):
                    kinds.add("unwrap")
                elif info == 0 and std and n in SWALLOW:
                    kinds.add("swallow:" + n)
                elif n == "drop" and "mem" in full:
                    kinds.add("mem-drop")
                elif n == "forget":
                    kinds.add("mem-drop")
                else:
                    kinds.add("passed")
            elif k == "callee":
                kinds.add("passed")
    return kinds, seen


def err_edges(body, bi, aliases):
    """blocks entered exactly when the tracked Result is Err (or the derived ControlFlow is Break)"""
    out = []
    for b, blk in enumerate(body.blocks):
        if blk.get("cl"):
            continue
        t = blk["t"]
        if t[1] != "switch":
            continue
        l = oplocal(t[2])
        for s in blk["s"]:
            if isinstance(s[2], list) and s[2][0] == "discr" and s[1][0] == l and not s[2][1][1] and s[2][1][0] in aliases:
                ty = body.lty(s[2][1][0])["s"]
                want = 0 if "Option<" in ty.split("Result")[0] and not ty.startswith("core::result") else 1
                tg = [x[1] for x in t[3] if x[0] == want]
                out += tg or [t[4]]
    return out


class Guard:
    """path-sensitive reachability that stops at edges where the guard is known to hold.
    call(body, bi, t) and rv(body, bi, rvalue) return '+' (true implies guard), '-' (false implies guard) or None"""

    def __init__(self, body, call=None, rv=None, lim=20000):
        self.b, self.call, self.rv, self.lim = body, call, rv, lim

    def reach(self, start=(0,)):
        """(blocks reachable with the guard not established, {block: parent})"""
        body = self.b
        bools = {i for i, t in enumerate(body.locals) if body.ty(t)["s"] == "bool"}
        seen, st, par = set(), [], {}
        for s in start:
            st.append((s, ()))
            par.setdefault(s, None)
        n = 0
        while st:
            bi, env = st.pop()
            if (bi, env) in seen:
                continue
            seen.add((bi, env))
            n += 1
            if n > self.lim:
                raise RuntimeError("guard walk too large in " + body.id)
            e = dict(env)
            blk = body.blocks[bi]
            for s in blk["s"]:
                d, r = s[1], s[2]
                if not isinstance(r, list) or d[1] or d[0] not in bools:
                    continue
                v = None
                if r[0] == "use":
                    l = plocal(r[1])
                    if l is not None:
                        v = e.get(l)
                    else:
                        c = boolconst(r[1])
                        v = None if c is None else ("T" if c else "F")
                elif r[0] == "un" and r[1] == "Not":
                    l = plocal(r[2])
                    v = {"T": "F", "F": "T", "+": "-", "-": "+"}.get(e.get(l))
                if v is None and self.rv:
                    v = self.rv(body, bi, r)
                if v is None:
                    e.pop(d[0], None)
                else:
                    e[d[0]] = v
            t = blk["t"]
            nxt = []
            if t[1] == "call":
                if not t[4][1] and t[4][0] in bools:
                    v = self.call(body, bi, t) if self.call else None
                    if v is None:
                        e.pop(t[4][0], None)
                    else:
                        e[t[4][0]] = v
                nxt = [(s, e) for s in body.succ(bi)]
            elif t[1] == "switch":
                l = oplocal(t[2])
                v = e.get(l) if l in bools else None
                for val, tg in [(x[0], x[1]) for x in t[3]] + [(None, t[4])]:
                    truth = None if l not in bools else (False if val == 0 else True)
                    if val is None and l in bools:
                        truth = True if any(x[0] == 0 for x in t[3]) else None
                    e2 = e
                    if truth is not None and v in ("T", "F") and (v == "T") != truth:
                        continue
                    if truth is True and v == "+" or truth is False and v == "-":
                        continue
                    if self.edge_guard(bi, t, val):
                        continue
                    if truth is not None and l in bools:
                        e2 = dict(e)
                        e2[l] = "T" if truth else "F"
                    nxt.append((tg, e2))
            else:
                nxt = [(s, e) for s in body.succ(bi)]
            for tg, e2 in nxt:
                if body.blocks[tg].get("cl"):
                    continue
                par.setdefault(tg, bi)
                st.append((tg, tuple(sorted(e2.items()))))
        return {b for b, _ in seen}, par, seen

    def edge_guard(self, bi, t, val):
        return False


def boolconst(o):
    k = o.get("k") if isinstance(o, dict) else None
    if isinstance(k, dict):
        for f in ("b",):
            if f in k:
                return bool(k[f])
    return None


def bool_summary(body, call, rv=None):
    """does a true result of this bool function imply the guard ('+'), a false result ('-'), or neither (None)?"""
    g = Guard(body, call, rv)
    try:
        _, _, seen = g.reach()
    except RuntimeError:
        return None
    vals = set()
    for bi, env in seen:
        t = body.blocks[bi]["t"]
        if t[1] != "ret":
            continue
        e = dict(env)
        # effect of this block's own statements on _0
        v = e.get(0)
        for s in body.blocks[bi]["s"]:
            if s[1] and s[1][0] == 0 and not s[1][1] and isinstance(s[2], list):
                r = s[2]
                v = None
                if r[0] == "use":
                    l = plocal(r[1])
                    if l is not None:
                        v = e.get(l)
                    else:
                        c = boolconst(r[1])
                        v = None if c is None else ("T" if c else "F")
                elif r[0] == "un" and r[1] == "Not":
                    v = {"T": "F", "F": "T", "+": "-", "-": "+"}.get(e.get(plocal(r[2])))
                if v is None and rv:
                    v = rv(body, bi, r)
        vals.add(v)
    if vals <= {"F", "+"} and vals:
        return "+"
    if vals <= {"T", "-"} and vals:
        return "-"
    return None

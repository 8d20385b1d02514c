"""Emission analysis: an abstract interpreter that answers "which character
sequences can this String hold?" for a pluggable text domain (XML lexer, template
collector, dangerous-character set, ...).  Buffers are path machines over the
MIR control-flow graph; correlated branch conditions on immutable data are
tracked as facts so that `if c {open} .. if c {close}` is not a false alarm."""
import mir
from value import *
from value import Resolver, frame, mk, S, UNK, DEAD, pretty

DANGER = frozenset("&<>\"'")
REFS = "\x02"              # the text holds entity references: a piece of it may end or begin inside one
CUTS = ("index", "get", "split_off", "take", "sliced", "to_uppercase", "to_ascii_uppercase")
ESCAPE_CHAR = None      # languages that escape with a prefix: rewriting the prefix undoes what was escaped before (\x01: something was)
INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool"}
STRINGY = ("alloc::string::String", "str", "alloc::borrow::Cow")


VEMPTY = mk("vempty")


class Limit(Exception):
    pass


def strip_refs(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    return s


def decode_template(bs):
    """core::fmt template bytes -> list of ('lit', str) / ('arg', n, opts)"""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i + 1:i + 1 + b]).decode("utf-8", "replace")))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(("lit", bytes(bs[i + 3:i + 3 + n]).decode("utf-8", "replace")))
            i += 3 + n
        elif b & 0xC0 == 0xC0:
            i += 1
            o = {}
            if b & 1:
                o["flags"] = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if b & 2:
                o["width"] = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if b & 4:
                o["prec"] = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if b & 8:
                n = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            else:
                n = nxt
            nxt = n + 1
            out.append(("arg", n, o))
        else:
            raise ValueError("format template byte %d" % b)
    return out


class Domain:
    """text domain: states are hashable; transfer functions return a list of states"""
    dig = False        # look through integer/bool valued applications
    remember = False   # keep what a callee learned about its arguments for the rest of the caller

    def lit(self, eng, st, s):
        return [st]

    def hole(self, eng, st, desc, danger, v):
        return [st]

    def num(self, eng, st, v, spec):
        return [st]

    def key(self, st):
        return st, None

    def join(self, a, b):
        return a

    def split(self, st):
        """(part a callee may depend on, rest)"""
        return st, None

    def rejoin(self, st, rest):
        return st

    def escaped(self, st, rest):
        return False

    def fragment(self, eng, st, v, how):
        pass


class AllKeys:
    def __contains__(self, x):
        return True


AllKeys = AllKeys()


class Engine:
    def __init__(self, prog, res=None, dom=None):
        self.P = prog
        self.R = res or Resolver(prog)
        self.dom = dom
        self.memo = {}
        self.stack = []        # emission context: (body, line)
        self.fstack = []       # the same as (frame, block)
        self.visited = {}      # body id -> times machine entered
        self.unknown = {}      # unanalysable operations: key -> detail
        self.active = []
        self.pc = {}
        self.steps = 0
        self.at, self._xl, self.rel, self.unrel = {}, {}, {}, set()
        self.multi = None      # keys consulted at several places (None: keep every fact)
        self.profile = None    # {key: first site} while profiling
        self.danger_memo = {}
        self._lk = {}
        self.curf = frozenset()  # branch facts in force where the domain is being called
        self.ident = ()        # functions a domain wants to see through (escapers: the text they are given)

    # ------------------------------------------------------------ helpers
    def note(self, kind, detail):
        b, l = self.stack[-1] if self.stack else (None, 0)
        key = (kind, b.id if b else "?", detail)
        if key not in self.unknown:
            self.unknown[key] = (b.file if b else "?", l)

    def where(self):
        return self.stack[-1] if self.stack else (None, 0)

    def body_for_display(self, tyname, trait="core::fmt::Display"):
        idx = self.P.impl_index()
        t = tyname
        if "<" in t:
            t = t[:t.index("<")]
        l = idx.get((trait, "crate::" + t)) or idx.get((trait, t))
        for m in l or []:
            if m.endswith("::fmt"):
                return self.P.body(m)
        return None

    # ------------------------------------------------------------ predicates
    def norm(self, v):
        """canonical form of a value for use in branch facts"""
        if v.k == "ext":
            s = v.a[0].split("::")[-1]
            if s in ("iter", "as_ref", "deref", "as_str", "as_slice", "as_deref", "trim", "clone", "as_bytes") and v.a[1]:
                return self.norm(v.a[1][0])
            if s == "filter" or s == "map":
                return v
        if v.k == "app":
            x = self.R.inl(v)
            if x is not v:
                return self.norm(x)
        return v

    def pred_of(self, v):
        """value -> (key, fn raw switch value -> normalised value)"""
        flip = False
        while v.k == "un" and v.a[0] == "Not":
            v, flip = v.a[1], not flip
        m = (lambda x: 1 - x if x in (0, 1) else x) if flip else (lambda x: x)
        if v.k == "app" and v.a[0].body.lty(0)["s"] == "bool":
            x = self.R.predval(v)
            y = x
            while y is not None and y.k == "un" and y.a[0] == "Not":
                y = y.a[1]
            # a result that several branches assign says less than the call itself
            if y is not None and not (y.k == "loc" and self.booltable(v)):
                k, m2 = self.pred_of(x)
                return k, (lambda x: m2(m(x)))
        if v.k == "ext":
            s = v.a[0].split("::")[-1]
            a = v.a[1]
            if s in ("is_some", "is_ok"):
                k, m2 = self.discr_key(a[0])
                f = (lambda x: x) if s == "is_some" else (lambda x: 1 - x)
                return k, (lambda x: m2(f(m(x))))
            if s in ("is_none", "is_err"):
                k, m2 = self.discr_key(a[0])
                f = (lambda x: 1 - x) if s == "is_none" else (lambda x: x)
                return k, (lambda x: m2(f(m(x))))
            if s == "is_empty":
                return mk("empty", self.norm(a[0])), m
            if s == "eq" or s == "ne":
                x, y = self.norm(a[0]), self.norm(a[1])
                if x.n > y.n:
                    x, y = y, x
                if s == "ne":
                    return mk("eq", x, y), (lambda z: 1 - m(z) if m(z) in (0, 1) else z)
                return mk("eq", x, y), m
        if v.k == "bin" and v.a[0] in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
            op, a, b = v.a
            l = self.len_of(a)
            if l is not None and b.k == "c":
                z = b.a[1]
                if (op, z) in (("Eq", 0), ("Lt", 1)):
                    return mk("empty", l), m
                if (op, z) in (("Ne", 0), ("Gt", 0), ("Ge", 1)):
                    return mk("empty", l), (lambda x: 1 - m(x) if m(x) in (0, 1) else x)
            if op == "Ne":
                return mk("bin", "Eq", a, b), (lambda x: 1 - m(x) if m(x) in (0, 1) else x)
            if op == "Ge":
                return mk("bin", "Lt", a, b), (lambda x: 1 - m(x) if m(x) in (0, 1) else x)
            if op == "Gt":
                return mk("bin", "Le", a, b), (lambda x: 1 - m(x) if m(x) in (0, 1) else x)
        if v.k == "discr":
            k, m2 = self.discr_key(v.a[0])
            return k, (lambda x: m2(m(x)))
        return v, m

    def variant_test(self, k):
        """k compares a discriminant with a constant: (discriminant key, constant)"""
        if k.k == "bin" and k.a[0] == "Eq":
            for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if x.k == "discr":
                    dk, m = self.discr_key(x.a[0])
                    c = self.fold(self.discr_key(y.a[0])[0] if y.k == "discr" else y)
                    if c is not None and dk.k == "discr" and m(c) == c:
                        return dk, c
        return None

    def len_of(self, v):
        if v.k == "ext" and v.a[0].split("::")[-1] == "len" and v.a[1]:
            return self.norm(v.a[1][0])
        return None

    def discr_key(self, v):
        """discriminant of option-like combinators reduces to that of their source"""
        while v.k == "ext" and v.a[1] and ("Option" in v.a[0] or "Result" in v.a[0]):
            s = v.a[0].split("::")[-1]
            if s in ("map", "as_ref", "as_deref", "as_mut", "cloned", "copied", "inspect") and "Option" in v.a[0]:
                v = v.a[1][0]
            elif s == "branch":
                # ControlFlow: Continue=0 Break=1
                k, m = self.discr_key(v.a[1][0])
                if "option::Option" in v.a[0]:
                    return k, (lambda x, m=m: m(1 - x) if x in (0, 1) else m(x))
                return k, m
            else:
                break
        if v.k == "agg" and v.a[1]:
            adt = self.P.adts["ppt_rs"].get(v.a[0]) or self.P.adts.get("pptcli", {}).get(v.a[0])
            if adt:
                for x in adt["v"]:
                    if x["n"] == v.a[1]:
                        return mk("c", "int", x["d"]), (lambda x: x)
        return mk("discr", v), (lambda x: x)

    def stable(self, v, turn=False):
        """value cannot change between two evaluations in one frame activation (turn: in one turn of the loop that draws an element of it)"""
        if v.k in ("elem", "chr", "idx"):
            # drawn once per loop turn; its facts are dropped when the next one is drawn
            x = v.a[0]
            return True if x.k in ("buf", "mref", "phi") else self.stable(x, True)
        if v.k in ("buf", "mut", "mref", "?"):
            return False
        if v.k == "ext":
            n = v.a[0].split("::")[-1]
            if n in ("next", "next_back", "pop", "call?", "now", "new_v4", "read", "peek"):
                return False
            return all(self.stable(x, turn) for x in v.a[1] if x is not None)
        if v.k in ("c", "arg", "loc", "fn"):
            return True
        if v.k == "app":
            return all(self.stable(x, turn) for x in v.a[0].args if x is not None)
        if v.k == "phi":
            return turn
        for x in v.a:
            if isinstance(x, V) and not self.stable(x, turn):
                return False
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V) and not self.stable(y, turn):
                        return False
        return True

    def branch(self, fr, blk):
        """classification of a switch terminator, cached: ('const', target) | ('pred', key, [(target, op, val)]) | ('any',)"""
        key = ("br", blk)
        c = fr.cache.get(key)
        if c is not None:
            return c
        t = fr.body.blocks[blk]["t"]
        n = len(fr.body.blocks[blk]["s"])
        v = self.R.operand(fr, blk, n, t[2])
        r = self._branch(v, t)
        fr.cache[key] = r
        return r

    def _branch(self, v, t):
        if v.k == "discr" and v.a[0].k == "ext" and v.a[0].a[0].endswith("::next") and v.a[0].a[1]:
            arr = self.R.litarray(v.a[0].a[1][0])
            if arr is not None:
                edges = [(tgt, "=", raw) for raw, tgt in t[3]] + [(t[4], "!", frozenset(raw for raw, _ in t[3]))]
                return ("lit", v.a[0], len(arr), edges)
        k, m = self.pred_of(v)
        c = self.fold(k)
        if c is not None:
            for raw, tgt in t[3]:
                if m(raw) == c:
                    return ("const", tgt)
            # two-valued: the otherwise edge
            return ("const", t[4])
        # bytes/chars compared through any()/all()/contains(): remember the exclusion
        ex = self.exclusion(k)
        st = self.stable(k)
        edges = []
        vals = [m(raw) for raw, _ in t[3]]
        for (raw, tgt), val in zip(t[3], vals):
            edges.append((tgt, "=", val))
        boolish = set(vals) <= {0, 1} and len(vals) == 1 and self.two_valued(k)
        tab = self.booltable(k) if boolish and k.k == "app" and st else None
        if tab:
            key, rows = tab
            to = {vals[0]: t[3][0][1], 1 - vals[0]: t[4]}
            return ("pred", key, [(to[b], op, x) for b, op, x in rows], None)
        vt = self.variant_test(k) if boolish else None
        if vt:
            k, c = vt
            st = self.stable(k)
            ex = None
            val = vals[0]
            edges = [(t[3][0][1], "=", c) if val else (t[3][0][1], "!", frozenset((c,))),
                     (t[4], "!", frozenset((c,))) if val else (t[4], "=", c)]
        elif boolish:
            edges.append((t[4], "=", 1 - vals[0]))
        else:
            edges.append((t[4], "!", frozenset(vals)))
        if not st:
            r = ("ex", ex, edges) if ex else ("any", edges)
        else:
            r = ("pred", k, edges, ex)
        if self.mentions(k):
            return ("pick", k, edges, r)
        return r

    def specialise(self, v, facts):
        """v with the elements of literal arrays replaced by the one the current turn draws"""
        if v.k != "pick" and not self.mentions(v):
            return v
        if v.k == "pick":
            cur = self.lookup(facts, v.a[0])
            if cur is not None and cur[1] < len(v.a[1]):
                return self.specialise(v.a[1][cur[1]], facts)
            return v
        if v.k == "discr":
            x = self.specialise(v.a[0], facts)
            return v if x is v.a[0] else self.R.discr(x, "ppt_rs")
        if v.k == "f":
            x = self.specialise(v.a[0], facts)
            return v if x is v.a[0] else self.R.project(x, v.a[1], v.a[2], v.a[3])
        if v.k in ("eq", "un", "empty", "bin"):
            a = tuple(self.specialise(x, facts) if isinstance(x, V) else x for x in v.a)
            if a == v.a:
                return v
            return self.R.binop(*a) if v.k == "bin" else mk(v.k, *a)
        return v

    def two_valued(self, k):
        if k.k in ("empty", "eq", "loc"):
            return True
        if k.k == "bin" and k.a[0] in ("Eq", "Lt", "Le"):
            return True
        if k.k == "discr":
            return False
        if k.k == "ext":
            return k.a[0].split("::")[-1] in ("eq", "any", "all", "contains", "starts_with", "ends_with", "is_some_and",
                                              "contains_key", "is_char_boundary", "exists")
        return k.k in ("f", "arg", "app", "virt")

    def fold(self, k):
        if k.k == "c" and k.a[0] in ("int", "bool"):
            return int(k.a[1])
        if k.k == "c" and k.a[0] == "char":
            return ord(k.a[1])
        if k.k == "eq":
            x, y = k.a
            if x.k == "c" and y.k == "c":
                return int(x.a[1] == y.a[1])
            if x is y:
                return 1
        if k.k == "empty":
            x = k.a[0]
            if x.k == "c" and x.a[0] == "str":
                return int(x.a[1] == "")
            if x.k == "agg" and x.a[0] == "array":
                return int(len(x.a[2]) == 0)
        if k.k == "discr" and k.a[0].k == "ext" and k.a[0].a[0].endswith("::filter") and "Option" in k.a[0].a[0] and len(k.a[0].a[1]) > 1:
            p = self.R.call_value(k.a[0].a[1][1], (self.R.pay(k.a[0].a[1][0]),), None)
            if self.bool_of(p) == 0:
                return 0
        if k.k in ("phi", "loc") and k.a[0].body.lty(k.a[1])["s"] == "bool":
            # every assignment gives the same constant (with the option bound to a value)
            full = self.R.defs(k.a[0].body).info[k.a[1]].full
            if 1 < len(full) <= 4:
                vals = [self.R.defval(k.a[0], d) for d in full]
                if all(x.k == "c" and x.a[0] in ("bool", "int") for x in vals) and len({int(x.a[1]) for x in vals}) == 1:
                    return int(vals[0].a[1])
        return None

    def exclusion(self, k):
        """(string value, chars absent when result is 0, chars absent when result is 1)"""
        if k.k != "ext" or not k.a[1]:
            return None
        s = k.a[0].split("::")[-1]
        a = k.a[1]
        if s in ("any", "all") and len(a) == 2:
            src = a[0]
            if src.k == "mref":
                e = self.R.elem(src)
            else:
                e = self.R.elem(src)
            if e.k != "chr":
                return None
            sv = self.norm(e.a[0])
            t, f = set(), set()
            for c in DANGER:
                r = self.bool_of(self.R.call_value(a[1], (mk("c", "char", c),), None))
                if r == 1:
                    t.add(c)
                if r == 0:
                    f.add(c)
            if s == "any":
                return (sv, frozenset(t), frozenset())
            return (sv, frozenset(), frozenset(f))
        if s == "contains" and "str" in k.a[0] and len(a) == 2:
            p = a[1]
            if p.k == "c" and p.a[0] in ("char", "str") and len(p.a[1]) == 1:
                return (self.norm(a[0]), frozenset(p.a[1]), frozenset())
            if p.k == "agg" and p.a[0] == "array":
                return (self.norm(a[0]), frozenset(x.a[1] for x in p.a[2] if x.k == "c" and x.a[0] == "char"), frozenset())
            if p.k in ("clo", "fn"):
                t = {c for c in DANGER if self.bool_of(self.R.call_value(p, (mk("c", "char", c),), None)) == 1}
                return (self.norm(a[0]), frozenset(t), frozenset())
        return None

    def booltable(self, v):
        """a predicate that only looks at one discriminant: (discriminant key, [(result, op, value)])"""
        memo = self.R.__dict__.setdefault("_bt", {})
        if v in memo:
            return memo[v]
        memo[v] = None
        if v.a[0].body.lty(0)["s"] != "bool":
            return None
        dom = ConstDomain()
        dom.remember = True
        eng = Engine(self.P, self.R, dom)
        try:
            out = eng.emit(v, (None, frozenset()))
        except Limit:
            return None
        keys = {k for s, f in out for k, _ in f}
        if len(keys) != 1 or len(out) > 14:
            return None
        key = list(keys)[0]
        if key.k != "discr" or not self.stable(key):
            return None
        rows = []
        for s, f in out:
            if s not in (0, 1, True, False) or len(f) != 1:
                return None
            (_, (op, x)), = f
            rows.append((int(s), op, x))
        memo[v] = (key, sorted(rows, key=str))
        return memo[v]

    def bool_of(self, v):
        """0/1 when the value is that constant on every path, else None"""
        if v.k == "c" and v.a[0] in ("bool", "int"):
            return int(v.a[1])
        if v.k == "un" and v.a[0] == "Not":
            r = self.bool_of(v.a[1])
            return None if r is None else 1 - r
        if v.k == "app":
            vals = self.consts_of(v)
            if vals is not None and len(vals) == 1:
                return list(vals)[0]
            return None
        if v.k == "ext":
            s = v.a[0].split("::")[-1]
            a = v.a[1]
            if a and a[0].k == "c" and a[0].a[0] in ("char", "int"):
                c = a[0].a[1]
                c = chr(c) if isinstance(c, int) else c
                fn = {"is_ascii_hexdigit": lambda: c in "0123456789abcdefABCDEF", "is_ascii_digit": lambda: c in "0123456789",
                      "is_ascii_alphanumeric": lambda: c.isascii() and c.isalnum(), "is_alphanumeric": lambda: c.isalnum(),
                      "is_ascii_alphabetic": lambda: c.isascii() and c.isalpha(), "is_alphabetic": lambda: c.isalpha(),
                      "is_control": lambda: ord(c) < 32, "is_whitespace": lambda: c.isspace(),
                      "is_numeric": lambda: c.isnumeric(), "is_ascii_punctuation": lambda: c in "&<>\"'"}.get(s)
                if fn:
                    return int(fn())
        return None

    def consts_of(self, v):
        """set of possible constant results of an application, or None when not all constant"""
        if v.k == "c":
            return {v.a[1]}
        if v.k != "app":
            return None
        dom = ConstDomain()
        eng = Engine(self.P, self.R, dom)
        try:
            out = eng.emit(v, (None, frozenset()))
        except Limit:
            return None
        vals = set()
        for st, f in out:
            if st is None or st == "?":
                return None
            vals.add(st)
        return vals

    # -------------------------------------------------- which facts matter
    def live_keys(self, fr):
        """block -> set of predicate keys still useful at or after it"""
        lk = fr.cache.get("lk")
        if lk is not None:
            return lk
        body = fr.body
        n = len(body.blocks)
        D = self.R.defs(body)
        keyat = {}
        for b in body.reach():
            t = body.blocks[b]["t"]
            if t[1] == "switch":
                br = self.branch(fr, b)
                if br[0] == "pred":
                    keyat[b] = br[1]
        bykey = {}
        for b, k in keyat.items():
            bykey.setdefault(k, []).append(b)
        dom = body.dominators()
        # multi-def locals and the switches controlling which definition reaches
        ctrl = {}      # key -> {local: weight}
        regioncalls = {}
        for l, li in enumerate(D.info):
            if len(li.full) < 2:
                continue
            w = 1
            ty = body.lty(l)
            if ty["k"] == "tuple":
                w = max(1, len(ty["a"]))
            for b, k in keyat.items():
                if any(b in dom[d[0]] and b != d[0] for d in li.full):
                    # b dominates some definition: does the branch select between definitions?
                    ctrl.setdefault(k, {})[l] = max(w, ctrl.get(k, {}).get(l, 0))
        interesting = set()
        for k, bs in bykey.items():
            c = ctrl.get(k, {})
            score = (len(bs) - 1) + sum(c.values())
            has_op = False
            if len(bs) >= 2 or score >= 2:
                interesting.add(k)
                continue
            if c:
                for b in bs:
                    for x in body.reach():
                        if b in dom[x] and x != b and body.blocks[x]["t"][1] == "call":
                            t = body.blocks[x]["t"]
                            if any(("m" in a or "c" in a) and body.lty((a.get("m") or a.get("c"))[0])["k"] == "ref"
                                   and body.lty((a.get("m") or a.get("c"))[0]).get("m") for a in t[3]):
                                has_op = True
                    # facts needed only if both op and phi are affected
                if has_op:
                    interesting.add(k)
            if k.k == "chr":
                interesting.add(k)
        # liveness: switch on key reachable, or a controlled local used later
        use = [set() for _ in range(n)]
        for b, k in keyat.items():
            if k in interesting:
                use[b].add(k)
        usel = self._uses(body)
        for k in interesting:
            for l in ctrl.get(k, {}):
                for b in usel.get(l, ()):
                    use[b].add(k)
            if k.k == "chr":
                for b in body.reach():
                    if body.blocks[b]["t"][1] == "call":
                        use[b].add(k)
        live = [set(u) for u in use]
        ch = True
        order = sorted(body.reach(), reverse=True)
        while ch:
            ch = False
            for b in order:
                s = live[b]
                n0 = len(s)
                for x in body.succ(b):
                    s |= live[x]
                if len(s) != n0:
                    ch = True
        fr.cache["lk"] = live
        return live

    def _uses(self, body):
        u = body.cache.get("uses")
        if u is None:
            u = {}

            def op(o, b):
                if isinstance(o, dict):
                    p = o.get("c") or o.get("m")
                    if p:
                        u.setdefault(p[0], set()).add(b)

            def walk(x, b):
                if isinstance(x, dict):
                    op(x, b)
                elif isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                        u.setdefault(x[0], set()).add(b)
                    for y in x:
                        walk(y, b)
            for b in body.reach():
                for s in body.blocks[b]["s"]:
                    if s[2][0] == "dead":
                        continue
                    for x in s[2][1:]:
                        walk(x, b)
                t = body.blocks[b]["t"]
                if t[1] == "call":
                    for a in t[3]:
                        op(a, b)
                    op(t[2], b)
                elif t[1] == "switch":
                    op(t[2], b)
            # a reference to a local is a use wherever the reference is used: approximate transitively
            D = self.R.defs(body)
            for _ in range(4):
                for l, li in enumerate(D.info):
                    for d in li.full:
                        if d[2] == "s":
                            r = body.blocks[d[0]]["s"][d[1]][2]
                            src = None
                            if r[0] == "ref":
                                src = r[2][0]
                            elif r[0] in ("use",):
                                p = r[1].get("c") or r[1].get("m")
                                src = p[0] if p else None
                            if src is not None and l in u:
                                u.setdefault(src, set()).update(u[l])
            body.cache["uses"] = u
        return u

    # ------------------------------------------------------------ facts
    @staticmethod
    def assume(facts, key, op, val):
        """facts with key op val added, or None when contradictory"""
        d = dict(facts)
        cur = d.get(key)
        if cur is None:
            d[key] = (op, val)
        elif cur[0] == "=":
            if op == "=":
                if cur[1] != val:
                    return None
                return facts
            if cur[1] in val:
                return None
            return facts
        else:
            if op == "=":
                if val in cur[1]:
                    return None
                d[key] = ("=", val)
            else:
                d[key] = ("!", cur[1] | val)
        return frozenset(d.items())

    @staticmethod
    def lookup(facts, key):
        for k, v in facts:
            if k is key:
                return v
        return None

    def edges(self, fr, blk, facts):
        """feasible (target, facts') successors of a switch"""
        br = self.branch(fr, blk)
        if br[0] == "const":
            return [(br[1], facts)]
        if br[0] == "pick":
            c = self.fold(self.specialise(br[1], facts))
            if c is not None:
                return [(t, facts) for t, op, val in br[2] if (val == c if op == "=" else c not in val)]
            br = br[3]
        if br[0] == "lit":
            cur = self.lookup(facts, br[1])
            if cur is not None:
                want = 1 if cur[1] < br[2] else 0
                return [(t, facts) for t, op, val in br[3] if (val == want if op == "=" else want not in val)]
            return [(t, facts) for t, _, _ in br[3]]
        if br[0] == "any":
            return [(t, facts) for t, _, _ in br[1]]
        out = []
        ex = br[1] if br[0] == "ex" else br[3]
        if br[0] == "pred":
            key = br[1]
            if self.profile is not None:
                self.consult(key, (fr.body.id, blk))
                return [(t, self._ex(facts, ex, op, val)) for t, op, val in br[2]]
            if self.multi is not None and key not in self.multi and key.k not in ("chr", "loc"):
                return [(t, self._ex(facts, ex, op, val)) for t, op, val in br[2]]
            for t, op, val in br[2]:
                f = self.assume(facts, key, op, val)
                if f is None:
                    continue
                out.append((t, self._ex(f, ex, op, val)))
            return out
        for t, op, val in br[2]:
            out.append((t, self._ex(facts, ex, op, val)))
        return out

    def _ex(self, facts, ex, op, val):
        if not ex:
            return facts
        sv, at0, at1 = ex
        b = None
        if op == "=" and val in (0, 1):
            b = val
        elif op == "!" and len(val) == 1:
            b = 1 - list(val)[0]
        if b is None:
            return facts
        chars = at0 if b == 0 else at1
        if chars:
            f = dict(facts)
            k = mk("excl", sv)
            old = f.get(k)
            f[k] = ("=", (old[1] if old else frozenset()) | chars)
            return frozenset(f.items())
        return facts

    @staticmethod
    def newvol(e, memo={}):
        """the loop element(s) that change when e is drawn anew (not those of enclosing loops)"""
        r = memo.get(e)
        if r is None:
            nested = frozenset()
            for w in e.vol:
                nested |= w.vol - {w}
            r = e.vol - nested
            memo[e] = r
        return r

    def mentions(self, v, memo={}):
        """iterator sites a predicate's value depends on"""
        r = memo.get(v)
        if r is None:
            r = set()
            memo[v] = r
            st = list(v.a)
            while st:
                x = st.pop()
                if isinstance(x, V):
                    if x.k == "pick":
                        r.add(x.a[0])
                    r |= self.mentions(x)
                elif isinstance(x, tuple):
                    st.extend(x)
        return r

    # ------------------------------------------------------------ the machine
    def consult(self, key, site):
        o = self.profile.get(key)
        if o is None:
            self.profile[key] = site
        elif o != site:
            self.multi_seen.add(key)
        self.cons[-1].add(key)

    def profiled(self, v):
        """runs a fact-free pass over v to learn which conditions are consulted at more than one place; only those
        need remembering to decide correlated branches"""
        if self.multi is None:
            self.multi = set()
        e = Engine(self.P, self.R, Domain())
        e.profile, e.multi_seen, e.cons = {}, set(), [set()]
        e.memo_keys, e.at, e.norel = {}, {}, set()
        e.ident = self.ident
        try:
            v(e)
        except Limit:
            self.multi = None
            return
        self.multi |= e.multi_seen
        for k, ks in e.at.items():
            self.at.setdefault(k, set()).update(ks)
        self._xl = {}
        bad = {k[:5] + k[7:9] for k in e.norel}
        for k, ks in e.memo_keys.items():
            rk = k[:5] + k[7:9]
            if rk in bad:
                self.rel.pop(rk, None)
                self.unrel.add(rk)
            elif rk not in self.unrel:
                self.rel.setdefault(rk, set()).update(ks)

    def call_live(self, body):
        """block -> conditions that text emitted at or after it consults inside a callee (from the fact-free pass)"""
        if self.profile is not None or not self.multi:
            return {}
        r = self._xl.get(body.id)
        if r is None:
            r = {b: {k for k in self.at[(body.id, b)] if k in self.multi and (not k.vol or self.dom.remember)}
                 for b in body.reach() if (body.id, b) in self.at}
            if any(r.values()):
                ch = True
                order = sorted(body.reach(), reverse=True)
                while ch:
                    ch = False
                    for b in order:
                        s = r.get(b) or set()
                        n0 = len(s)
                        for x in body.succ(b):
                            s = s | r.get(x, set())
                        if len(s) != n0:
                            r[b] = s
                            ch = True
            self._xl[body.id] = r
        return r

    def clears(self, id):
        """may the function (transitively) reset a buffer it was given?"""
        c = self._lk.get(("clr", id))
        if c is None:
            c = False
            seen, st = {id}, [id]
            while st and not c:
                x = st.pop()
                for k, n, l in self.P.edges(x):
                    if n is None or n in seen:
                        continue
                    seen.add(n)
                    if n in ("alloc::string::String::clear", "alloc::vec::Vec::<T, A>::clear", "core::mem::take"):
                        c = True
                        break
                    if n.startswith(("crate::", "pptcli::", "<crate::")):
                        st.append(n)
            self._lk[("clr", id)] = c
        return c

    def run(self, fr, local, path, target, entry, sep=None, init=None, base=None):
        """States of buffer (local,path) of frame `fr` at `target` ('ret' or (blk, idx)).
        entry: (state, facts).  init: None (buffer undefined at entry) or 'given' (buffer already holds `state`)."""
        st0, f0 = entry
        dom = self.dom
        if init == "given" and base is not None and base is not st0 and self.clears(fr.body.id):
            key = (fr.body.id, fr.n, local, path, target, st0, f0, sep, base)
            r = self.memo.get(key)
            if r is None:
                if key in self.active_set() or len(self.active) > 90:
                    self.note("recursion", fr.body.id)
                    return set()
                self.active.append(key)
                try:
                    r = self._run(fr, local, path, target, (st0, f0), sep, init, base)
                finally:
                    self.active.pop()
                self.memo[key] = r
            return set(r)
        sub, rest = dom.split(st0)
        relf = f0
        kept = ()
        if self.profile is None and f0 and self.rel:
            # facts the callee never consults travel around it
            rk = self.rel.get((fr.body.id, fr.n, local, path, target, sep, init))
            if rk is not None:
                relf = frozenset(x for x in f0 if x[0] in rk or x[0].k in ("excl", "loc", "ext", "chr"))
                kept = f0 - relf
                f0 = relf
                if not kept:
                    relf = f0
        key = (fr.body.id, fr.n, local, path, target, sub, relf, sep, init)
        r = self.memo.get(key)
        if self.profile is not None:
            if r is None:
                if key in self.active_set() or len(self.active) > 90:
                    self.norel.update(self.active)
                    self.norel.add(key)
                    return set()
                self.active.append(key)
                self.cons.append(set())
                try:
                    r = self._run(fr, local, path, target, (sub, f0), sep, init)
                finally:
                    self.active.pop()
                    ks = self.cons.pop()
                    self.cons[-1] |= ks
                self.memo[key] = r
                self.memo_keys[key] = ks
            else:
                self.multi_seen |= self.memo_keys[key]
                self.cons[-1] |= self.memo_keys[key]
            return set(r)
        if r is None:
            if key in self.active_set() or len(self.active) > 90:
                self.note("recursion", fr.body.id)
                return set()
            self.active.append(key)
            try:
                r = self._run(fr, local, path, target, (sub, f0), sep, init)
            finally:
                self.active.pop()
            self.memo[key] = r
        if any(dom.escaped(s, rest) for s, f in r):
            key = (fr.body.id, fr.n, local, path, target, st0, relf, sep, init)
            r = self.memo.get(key)
            if r is None:
                self.active.append(key)
                try:
                    r = self._run(fr, local, path, target, (st0, f0), sep, init)
                finally:
                    self.active.pop()
                self.memo[key] = r
            return {(s, f | kept) for s, f in r} if kept else set(r)
        if kept:
            return {(dom.rejoin(s, rest), f | kept) for s, f in r}
        return {(dom.rejoin(s, rest), f) for s, f in r}

    def active_set(self):
        return self.active

    def ops(self, fr, local, path, sep):
        """block -> list of (idx, kind, data) buffer-relevant operations, in order"""
        ck = ("ops", local, path, sep is not None)
        c = fr.cache.get(ck)
        if c is not None:
            return c
        body, R = fr.body, self.R
        out = {}
        for b in body.reach():
            blk = body.blocks[b]
            l = []
            for i, s in enumerate(blk["s"]):
                p, r = s[1], s[2]
                D = R.defs(body)
                if r[0] == "dead":
                    if D.info[p[0]].allconst:
                        l.append((i, "dead", p[0]))
                    continue
                if D.info[p[0]].allconst and not p[1]:
                    v = R.rvalue(fr, b, i, r)
                    l.append((i, "flag", (p[0], v.a[1])))
                if p[0] == local or (p[1] and body.lty(p[0])["k"] == "ref"):
                    m = self.place_path(fr, b, i, p)
                    if m is None and p[0] == local and not p[1]:
                        m = (local, ())       # a reference to something that is not a buffer of this function
                    if m is not None and m[0] == local:
                        if path[:len(m[1])] == m[1]:
                            l.append((i, "def", (("s", b, i), path[len(m[1]):])))
                        elif m[1][:len(path)] == path:
                            l.append((i, "pdef", (("s", b, i), m[1][len(path):])))
            t = blk["t"]
            n = len(blk["s"])
            if t[1] == "call":
                k = self.callop(fr, b, t, local, path)
                if k is not None:
                    l.append((n, "op", k))
                p = t[4]
                m = self.place_path(fr, b, n, p)
                if m is None and p[0] == local and not p[1]:
                    m = (local, ())
                if m is not None and m[0] == local and path[:len(m[1])] == m[1]:
                    l.append((n, "def", (("c", b), path[len(m[1]):])))
            if l:
                out[b] = l
        fr.cache[ck] = out
        return out

    def place_path(self, fr, b, i, p):
        m = self.R.bufid(fr, b, i, p)
        if m is None or m.a[0] is not fr:
            return None
        return (m.a[1], m.a[2])

    def callop(self, fr, b, t, local, path):
        """does this call mutate the buffer?  -> ('str'|'crate'|'unknown', ...)"""
        R = self.R
        n = len(fr.body.blocks[b]["s"])
        for ai, a in enumerate(t[3]):
            p = a.get("c") or a.get("m")
            if not p:
                continue
            ty = fr.body.lty(p[0])
            isclo = False
            v = None
            if ty["k"] == "ref" and ty.get("m"):
                v = R.operand(fr, b, n, a)
            elif ty["k"] == "closure":
                v = R.operand(fr, b, n, a)
                if v.k == "clo":
                    for ui, u in enumerate(v.a[1]):
                        if u.k == "mref" and u.a[0] is fr and u.a[1] == local and path[:len(u.a[2])] == u.a[2]:
                            return ("closure", ai, ui, path[len(u.a[2]):])
                continue
            elif ty["k"] == "ref":
                v = R.operand(fr, b, n, a)
                if v.k != "mref":
                    continue
                # shared reference produced from a mutable chain: no mutation
                continue
            if v is None:
                continue
            m = self.as_mref(v, fr)
            if m is None:
                if v.k == "app" and 1 <= local <= fr.body.argc:
                    pass
                continue
            if m[0] != local:
                continue
            if m[1] == path[:len(m[1])]:
                return ("ref", ai, path[len(m[1]):])
            if path == m[1][:len(path)]:
                return ("inner", ai, m[1])
        return None

    def as_mref(self, v, fr):
        """follow &mut-returning methods back to the borrowed storage"""
        for _ in range(40):
            if v.k == "mref":
                return (v.a[1], v.a[2]) if v.a[0] is fr else None
            if v.k == "mrefup":
                return (1, (("", "up%d" % v.a[0]),))
            if v.k == "app":
                f = v.a[0]
                rt = f.body.lty(0)
                if rt["k"] == "ref" and rt.get("m") and f.args and f.args[0] is not None:
                    v = f.args[0]
                    continue
            if v.k == "ext" and v.a[1] and v.a[0].split("::")[-1] in ("deref_mut", "by_ref", "as_mut"):
                v = v.a[1][0]
                continue
            return None
        return None

    def _run(self, fr, local, path, target, entry, sep, init, base=None):
        body, dom, R = fr.body, self.dom, self.R
        self.visited[body.id] = self.visited.get(body.id, 0) + 1
        ops = self.ops(fr, local, path, sep)
        live = self.live_keys(fr)
        xl = self.call_live(body)
        tb = None if target == "ret" else target[0]
        reach_t = self.back_reach(body, tb)
        start_state, f0 = entry
        given = start_state
        if base is not None:
            start_state = base
        outer = {k for k, _ in f0}
        # conditions about what the caller passed hold for the whole call
        keep = None
        if dom.remember and self.profile is None:
            keep = self.multi if self.multi is not None else AllKeys
        results = {}

        UN = ("\0uninit",)
        if init == "given":
            first = [(given, f0)]
        elif 1 <= local <= body.argc:
            a = fr.args[local - 1]
            v = R.apply(a if a is not None else UNK, [("f",) + x if len(x) == 2 else x for x in path])
            first = list(self.content(v, (start_state, f0), sep))
        else:
            first = [(UN, f0)]
        seen = {}
        work = []

        def push(b, st, f):
            if b not in reach_t:
                return
            lk = live[b]
            xb = xl.get(b, ())
            f = frozenset(x for x in f if x[0] in lk or x[0] in outer or x[0] in xb or x[0].k in ("excl", "loc", "ext")
                          or keep is not None and x[0] in keep and x[0].vol <= fr.vol)
            if st is UN:
                k, extra = UN, None
            else:
                k, extra = dom.key(st)
            kk = (b, k, f)
            old = seen.get(kk, seen)
            if old is seen:
                seen[kk] = st
                work.append((b, kk))
            elif extra is not None:
                j = dom.join(old, st)
                if j != old:
                    seen[kk] = j
                    work.append((b, kk))

        for st, f in first:
            push(0, st, f)
        while work:
            b, kk = work.pop()
            st, f = seen[kk], kk[2]
            self.steps += 1
            if len(seen) > 60000:
                raise Limit("state explosion in %s" % body.id)
            cur = [(st, f)]
            blk = body.blocks[b]
            nst = len(blk["s"])
            stop_idx = target[1] if tb == b else None
            if self.profile is not None:
                self.cons.append(set())
            for (i, kind, data) in ops.get(b, ()):
                if stop_idx is not None and i >= stop_idx:
                    break
                cur = self.step(fr, b, i, kind, data, cur, start_state, sep, local, path, UN)
                if not cur:
                    break
            if stop_idx is not None:
                for st2, f2 in cur:
                    self._collect(results, st2, f2, UN, outer)
                # a target inside a loop can be passed again
                rest = [o for o in ops.get(b, ()) if o[0] >= stop_idx]
                for (i, kind, data) in rest:
                    cur = self.step(fr, b, i, kind, data, cur, start_state, sep, local, path, UN)
                    if not cur:
                        break
            if self.profile is not None:
                ks = self.cons.pop()
                if ks:
                    self.at.setdefault((body.id, b), set()).update(ks)
                    self.cons[-1] |= ks
            t = blk["t"]
            defd = self.iter_defs(fr, b)
            if defd:
                cur = [(s, self.fresh_iter(fr, defd, f2)) for s, f2 in cur]
            if t[1] == "ret":
                if target == "ret":
                    for st2, f2 in cur:
                        self._collect(results, st2, f2, UN, outer)
                continue
            if t[1] == "switch":
                for st2, f2 in cur:
                    for tgt, f3 in self.edges(fr, b, f2):
                        push(tgt, st2, f3)
                continue
            if t[1] == "call":
                nm = mir.callee(t) or ""
                if nm.endswith("::next") and t[3]:
                    # new loop element: facts about the previous one are void
                    v = R.defval(fr, (b, nst, "c"))
                    arr = R.litarray(v.a[1][0]) if v.k == "ext" and v.a[1] else None
                    if arr is not None:
                        nc = []
                        for s, f2 in cur:
                            d = dict(f2)
                            d[v] = ("=", (d[v][1] + 1) if v in d else 0)
                            nc.append((s, frozenset(x for x in d.items() if x[0] is v or v not in self.mentions(x[0]))))
                        cur = nc
                        for s in body.succ(b):
                            for st2, f2 in cur:
                                push(s, st2, f2)
                        continue
                    e = R.payload(v)
                    if e is not None and e.vol:
                        cur = [(s, frozenset(x for x in f2 if not (x[0].vol & self.newvol(e)))) for s, f2 in cur]
                    if dom.remember and v.k == "ext" and v.a[1]:
                        fs = self.filtered(v.a[1][0])
                        if fs:
                            cur = [(s, f3) for s, f2 in cur for f3 in self.passing(fs, f2)]
            for s in body.succ(b):
                for st2, f2 in cur:
                    push(s, st2, f2)
        return {(s, f) for (k, f), s in results.items()}

    def iter_defs(self, fr, b):
        """iterator locals that block b creates"""
        c = fr.body.cache.get("iterdefs")
        if c is None:
            c = fr.body.cache["iterdefs"] = {}
            for x in fr.body.reach():
                blk = fr.body.blocks[x]
                ls = [s[1][0] for s in blk["s"] if not s[1][1] and s[2][0] != "dead"]
                if blk["t"][1] == "call" and not blk["t"][4][1]:
                    ls.append(blk["t"][4][0])
                ls = frozenset(l for l in ls if self.R.is_iter(fr.body.lty(l)))
                if ls:
                    c[x] = ls
        return c.get(b)

    def fresh_iter(self, fr, locals_, facts):
        """facts about a literal-array iterator are void once it is created anew"""
        gone = [k for k, _ in facts if k.k == "ext" and k.a[0].endswith("::next") and k.a[1] and k.a[1][0].k == "mref"
                and k.a[1][0].a[0] is fr and k.a[1][0].a[1] in locals_]
        if not gone:
            return facts
        return frozenset(x for x in facts if x[0] not in gone and not any(g in self.mentions(x[0]) for g in gone))

    def _collect(self, results, st, f, UN, outer):
        if st is UN:
            return
        f = frozenset(x for x in f if (x[0] in outer or not (
            x[0].k in ("excl", "loc") or (x[0].k == "ext" and x[0].a[0].endswith("::next")))))
        k, extra = self.dom.key(st)
        kk = (k, f)
        if kk in results and extra is not None:
            results[kk] = self.dom.join(results[kk], st)
        else:
            results.setdefault(kk, st)

    def back_reach(self, body, tb):
        c = body.cache.setdefault("br", {})
        if tb not in c:
            if tb is None:
                st = [b for b in body.reach() if body.blocks[b]["t"][1] == "ret"]
            else:
                st = [tb]
            seen = set(st)
            while st:
                x = st.pop()
                for p in body.pred(x):
                    if p not in seen and p in body.reach():
                        seen.add(p)
                        st.append(p)
            c[tb] = seen
        return c[tb]

    def step(self, fr, b, i, kind, data, cur, start, sep, local, path, UN):
        R, dom = self.R, self.dom
        body = fr.body
        if kind == "dead":
            lk = mk("loc", fr, data)
            return [(s, frozenset(x for x in f if x[0] is not lk)) for s, f in cur]
        if kind == "flag":
            lk = mk("loc", fr, data[0])
            out = []
            for s, f in cur:
                d = dict(f)
                d[lk] = ("=", data[1])
                out.append((s, frozenset(d.items())))
            return out
        blk = body.blocks[b]
        line = blk["s"][i][0] if i < len(blk["s"]) else blk["t"][0]
        self.stack.append((body, line))
        self.fstack.append((fr, b))
        try:
            out = []
            if kind == "def":
                src, rem = data
                if src[0] == "s":
                    v = R.rvalue(fr, b, i, blk["s"][i][2])
                else:
                    v = R.callval(fr, b)
                if src[0] == "c" and rem and rem[0][0] in ("Some", "Ok") and (mir.callee(blk["t"]) or "").endswith("from_residual"):
                    # an early return of None / Err carries no text
                    return []
                if src[0] == "c":
                    u = self.self_update(fr, b, blk["t"], local, path)
                    if u is not None:
                        for s, f in cur:
                            if s is UN:
                                continue
                            out.extend(self.self_apply(fr, b, blk["t"], u, rem, (s, f), sep))
                        return out
                v = R.apply(v, [("f",) + x if len(x) == 2 else x for x in rem])
                if v is DEAD:
                    return []
                for s, f in cur:
                    out.extend(self.content(v, (start, f), sep))
                return out
            if kind == "pdef":
                self.note("partial-write", pretty(mk("mref", fr, local, path)))
                return cur
            if kind == "op":
                for s, f in cur:
                    if s is UN:
                        # mutated before definition is known: treat as empty
                        s = start
                    out.extend(self.apply_op(fr, b, data, (s, f), start, sep))
                return out
            return cur
        finally:
            self.stack.pop()
            self.fstack.pop()

    # x = x.method(..) / x = x + ..   inside the machine for x
    def self_update(self, fr, b, t, local, path):
        n = len(fr.body.blocks[b]["s"])
        D = self.R.defs(fr.body)
        for ai, a in enumerate(t[3]):
            p = a.get("m") or a.get("c")
            if not p:
                continue
            l = p[0]
            for _ in range(6):
                if l == local:
                    return ai
                li = D.info[l]
                if len(li.full) == 1 and li.full[0][2] == "s":
                    r = fr.body.blocks[li.full[0][0]]["s"][li.full[0][1]][2]
                    q = r[1].get("m") if r[0] == "use" and isinstance(r[1], dict) else None
                    if q and not q[1]:
                        l = q[0]
                        continue
                break
            if p[1]:
                continue
        return None

    def self_apply(self, fr, b, t, ai, rem, entry, sep):
        R = self.R
        name = self.P.resolve_id(fr.body.crate, mir.callee(t))
        body = self.P.body(name) if name else None
        n = len(fr.body.blocks[b]["s"])
        args = [R.operand(fr, b, n, a) for a in t[3]]
        CUR = mk("cur", fr, b)
        args[ai] = CUR
        if body is not None:
            v = R.apply(R.mkapp(body, tuple(args)), [("f",) + x if len(x) == 2 else x for x in rem])
            return self.content(v, entry, sep)
        if name and name.endswith("Add<&str>>::add") and ai == 0:
            return self.emit(args[1], entry)
        v = R.apply(R.callval(fr, b), [("f",) + x if len(x) == 2 else x for x in rem])
        self.note("self-update", pretty(v)[:120])
        return [entry]

    def apply_op(self, fr, b, data, entry, start, sep):
        R = self.R
        body = fr.body
        t = body.blocks[b]["t"]
        n = len(body.blocks[b]["s"])
        name = self.P.resolve_id(body.crate, mir.callee(t))
        if data[0] == "closure":
            _, ai, ui, rem = data
            v = R.operand(fr, b, n, t[3][ai])
            cb = self.P.body(v.a[0])
            short = (name or "").split("::")[-1]
            if cb is None or short not in ("for_each", "try_for_each", "map", "fold", "call", "call_mut", "call_once"):
                self.note("closure-mutation", name)
                return [entry]
            item = R.elem(R.operand(fr, b, n, t[3][0])) if ai > 0 else UNK
            # inside the closure the captured reference is the storage
            v = mk("clo", v.a[0], tuple(mk("mrefup", ui) if i == ui and cb.lty(1)["k"] == "ref" else x for i, x in enumerate(v.a[1])))
            args = [v, item] if cb.argc > 1 else [v]
            f2 = frame(cb, tuple(args[:cb.argc]) + (None,) * max(0, cb.argc - len(args)))
            out = {entry}
            todo = [entry]
            while todo:
                e = todo.pop()
                for r in self.run(f2, 1, (("", "up%d" % ui),) + rem, "ret", e, sep, "given"):
                    if r not in out:
                        out.add(r)
                        todo.append(r)
                        if len(out) > 500:
                            raise Limit("closure loop")
            return list(out)
        if data[0] == "inner":
            self.note("inner-mutation", name)
            return [entry]
        _, ai, rem = data
        args = [R.operand(fr, b, n, a) for a in t[3]]
        tb = self.P.body(name) if name else None
        if tb is not None:
            a2 = list(args[:tb.argc]) + [None] * max(0, tb.argc - len(args))
            a2[ai] = mk("mrefarg", ai)     # inside the callee the parameter itself is the storage
            f2 = frame(tb, tuple(UNK if (a is not None and a.depth > 60) else a for a in a2))
            return list(self.run(f2, ai + 1, rem, "ret", entry, sep, "given", start))
        k = mir.fninfo(t)
        imps = R.dispatch(name, k["fn"], k) if k else []
        if imps:
            out = set()
            for m in imps:
                tb = self.P.body(m)
                a2 = list(args[:tb.argc]) + [None] * max(0, tb.argc - len(args))
                a2[ai] = mk("mrefarg", ai)
                out |= set(self.run(frame(tb, tuple(a2)), ai + 1, rem, "ret", entry, sep, "given", start))
            return list(out)
        if name is None:
            self.note("indirect-call", "?")
            return [entry]
        short = name.split("::")[-1]
        if rem:
            if short in ("deref_mut", "as_mut", "by_ref", "borrow_mut"):
                return [entry]
            self.note("outer-mutation", name)
            return [entry]
        # ---- string buffers
        if sep is None:
            if short in ("push_str", "write_str", "add_assign", "push", "write_char", "pad", "extend_from_slice", "push_string"):
                return self.emit(args[1], entry)
            if short == "write_all" or short == "write":
                return self.emit(args[1], entry)
            if short == "write_fmt":
                return self.emit(args[1], entry)
            if short == "extend":
                return self.emit_star(R.elem(args[1]), entry)
            if short == "clear":
                return [(start, entry[1])]
            if short in ("reserve", "as_str", "len", "is_empty", "as_bytes", "deref_mut", "deref", "as_mut", "shrink_to_fit",
                         "capacity", "drop", "flush", "by_ref", "borrow_mut", "truncate_", "into"):
                return [entry]
            if short == "take":
                return [(start, entry[1])]
            if short in ("insert_str", "insert"):
                self.dom.fragment(self, entry[0], args[2], ("insert", self.position(args[1])))
                return [entry]
            if short == "replace_range":
                self.dom.fragment(self, entry[0], args[2], ("replace", None))
                return [entry]
            if short in ("sort", "sort_by", "sort_by_key", "dedup"):
                return [entry]
            if short.startswith(("debug_struct", "debug_tuple", "debug_c_like")):
                return self.dom.hole(self, entry[0], "debug", frozenset("\""), UNK) and [entry]
            if short in ("truncate", "drain", "remove", "split_off"):
                # the rest of escaped text may end inside a reference
                a = args[ai]
                if a is not None and a.k == "mref" and not a.a[2]:
                    vs = [R.defval(a.a[0], x) for x in R.defs(a.a[0].body).info[a.a[1]].full]
                    d = frozenset().union(*[self.danger(x) for x in vs])
                    if REFS in d and not d & {"<", "&"}:
                        return [(x, entry[1]) for x in self.dom.hole(self, entry[0], "text cut by %s()" % short, frozenset("&"), vs[0])]
            self.note("string-op", name)
            return [entry]
        # ---- vectors joined later
        if short == "push":
            return self.joined(args[1], entry, sep)
        if short in ("extend", "extend_from_slice", "append"):
            e = R.elem(args[1])
            out, todo = {entry}, [entry]
            while todo:
                x = todo.pop()
                for r in self.joined(e, x, sep):
                    if r not in out:
                        out.add(r)
                        todo.append(r)
            return list(out)
        if short == "insert":
            return self.joined(args[2], entry, sep)
        if short == "clear":
            return [self.vempty((start, entry[1]))]
        if short in ("reserve", "sort", "sort_by", "sort_by_key", "dedup", "deref_mut", "deref", "iter", "iter_mut", "len",
                     "is_empty", "reverse", "truncate", "retain", "pop", "last_mut", "as_mut_slice"):
            return [entry]
        self.note("vec-op", name)
        return [entry]

    def joined(self, v, entry, sep):
        out = []
        if self.lookup(entry[1], VEMPTY) is not None:
            outs = [(entry[0], frozenset(x for x in entry[1] if x[0] is not VEMPTY))]
        elif sep is not None and not (sep.k == "c" and sep.a[1] == ""):
            outs = self.emit(sep, entry)
        else:
            outs = [entry]
        for e in outs:
            out.extend(self.emit(v, e))
        return out

    def position(self, v):
        """literal searched for to obtain an insertion position"""
        seen = 0
        while v is not None and seen < 12:
            seen += 1
            if v.k == "ext" and v.a[0].split("::")[-1] in ("find", "rfind") and len(v.a[1]) > 1:
                p = v.a[1][1]
                return (p.a[1] if p.k == "c" else None, v.a[0].split("::")[-1])
            if v.k == "f":
                v = v.a[0]
            elif v.k == "ext" and v.a[1]:
                v = v.a[1][0]
            elif v.k == "bin":
                v = v.a[1]
            elif v.k == "optalt":
                v = v.a[1]
            else:
                return None
        return None

    # ------------------------------------------------------------ emission of values
    def content(self, v, entry, sep):
        """content of a buffer initialised with v"""
        if v.k == "cur":
            return [entry]
        if sep is not None:
            return self.vec_content(v, entry, sep)
        return self.emit(v, entry)

    def emit_alts(self, vs, entry):
        out = {}
        for v in vs:
            if v is DEAD:
                continue
            for s, f in self.emit(v, entry):
                out[(s, f)] = 1
        return list(out)

    def filtered(self, it):
        """[(key, [(op, value)])] that hold for what an iterator yields"""
        out = []
        for clo, arg in self.R.filters(it):
            p = self.R.call_value(clo, (arg,), None)
            if p is None:
                continue
            k, m = self.pred_of(p)
            if not self.stable(k):
                continue
            tab = self.booltable(k) if k.k == "app" else None
            if tab:
                rows = [(op, x) for b, op, x in tab[1] if m(b) == 1]
                k = tab[0]
            else:
                rows = [("=", m(1))] if m(1) in (0, 1) else []
            if rows:
                if self.profile is not None:
                    self.consult(k, ("filter", arg))
                out.append((k, rows))
        return out

    def pushguard(self, x):
        """[(key, [(op, value)])] that hold where the value is pushed onto its Vec (branches that every path to the push takes)"""
        at = self.R.pushes.get(x)
        if not at or len(at) != 1:
            return []
        fr, b = at[0]
        c = fr.cache.get(("pg", b))
        if c is not None:
            return c
        fr.cache[("pg", b)] = []
        body, out = fr.body, []
        for s in body.reach():
            t = body.blocks[s]["t"]
            if t[1] != "switch" or s == b or not body.dominates(s, b):
                continue
            tg = [y for y in body.succ(s) if body.dominates(y, b) and set(body.pred(y)) == {s}]
            if len(tg) != 1:
                continue
            br = self.branch(fr, s)
            if br[0] != "pred":
                continue
            rows = [(op, val) for tgt, op, val in br[2] if tgt == tg[0]]
            if rows and self.stable(br[1]):
                out.append((br[1], rows))
        fr.cache[("pg", b)] = out
        return out

    def passing(self, fs, facts):
        cur = [facts]
        for k, rows in fs:
            if self.multi is not None and k not in self.multi:
                continue
            cur = [g for f in cur for op, x in rows for g in (self.assume(f, k, op, x),) if g is not None]
        return cur

    def emit_star(self, v, entry):
        if v is DEAD:
            return [entry]
        out, todo = {entry}, [entry]
        n = 0
        while todo:
            e = todo.pop()
            n += 1
            if n > 400:
                raise Limit("star")
            for s, f in self.emit(v, e):
                f = frozenset(x for x in f if not (x[0].vol & self.newvol(v))) if v.vol else f
                k, extra = self.dom.key(s)
                r = (s, f)
                if r not in out:
                    out.add(r)
                    todo.append(r)
        return list(out)

    def emit(self, v, entry, ty=None, spec=None):
        """entry=(state, facts) -> list of (state, facts)"""
        st, f = entry
        self.curf = f
        dom, R = self.dom, self.R
        if v.k == "app":
            if self.ident and v.a[0].body.id in self.ident:
                return self.emit(v.a[0].args[0], entry, "str", spec)
            v = R.inl(v)
        k = v.k
        if v is DEAD:
            return []
        if k not in ("c", "cur", "chr"):
            for kk, val in f:
                if kk.k == "excl" and kk.a[0] is self.norm(v):
                    return [(s, f) for s in dom.hole(self, st, pretty(v), self.danger(v, frozenset()) - val[1], v)]
        if k == "c":
            t, val = v.a
            if t in ("str", "char"):
                return [(s, f) for s in dom.lit(self, st, val)]
            if t == "bytes":
                return [(s, f) for s in dom.lit(self, st, val.decode("utf-8", "replace"))]
            if t in ("int", "float", "bool"):
                return [(s, f) for s in dom.num(self, st, v, spec)]
            return [entry]
        if k == "cur":
            return [entry]
        if k == "optalt":
            dk, m = self.discr_key(v.a[0])
            out = {}
            if self.profile is not None:
                self.consult(dk, v)
                some = none = f
            elif self.multi is not None and dk not in self.multi:
                some = none = f
            elif self.stable(dk):
                some = self.assume(f, dk, "=", m(1))
                none = self.assume(f, dk, "=", m(0))
            else:
                some = none = f
            c = self.fold(dk)
            if c is not None:
                some = f if c == 1 else None
                none = f if c == 0 else None
            if some is not None:
                for r in self.emit(v.a[1], (st, some), ty, spec):
                    out[r] = 1
            if none is not None:
                for r in self.emit(v.a[2], (st, none), ty, spec):
                    out[r] = 1
            return list(out)
        if k == "alt":
            return self.emit_alts(v.a[0], entry)
        if k == "pick":
            cur = self.lookup(f, v.a[0])
            if cur is not None and cur[1] < len(v.a[1]):
                return self.emit(v.a[1][cur[1]], entry, ty, spec)
            return self.emit_alts(v.a[1], entry)
        if k == "agg":
            if v.a[0] == "array":
                cur = [entry]
                if all(x.k == "c" and x.a[0] in ("int",) for x in v.a[2]):
                    return [(s, f) for s in dom.lit(self, st, "".join(chr(x.a[1]) for x in v.a[2]))]
                return self.emit_star(R.elem(v), entry)
            b = self.body_for_adt(v, ty)
            if b:
                return self.display(b, v, entry)
            return self.unknown_hole(v, entry, ty)
        if k == "loc" and dom.dig:
            cur = self.lookup(f, v)
            if cur is not None and cur[0] == "=":
                return self.emit(mk("c", "bool" if v.a[0].body.lty(v.a[1])["s"] == "bool" else "int", cur[1]), entry, ty, spec)
        if k in ("f", "phi", "buf", "app", "virt", "loc", "elem"):
            root, steps = v, []
            while root.k == "f":
                steps.append((root.a[1], root.a[2], root.a[3]))
                root = root.a[0]
            steps.reverse()
            return self.emit_root(v, root, tuple(steps), entry, ty, spec)
        if k == "ext":
            return self.emit_ext(v, entry, ty, spec)
        if k == "chr":
            return self.emit_char(v, entry)
        if k == "un" and v.a[0] == "Not" and dom.dig:
            return [(1 - s if s in (0, 1) else "?", g) for s, g in self.emit(v.a[1], entry, ty, spec)]
        if k in ("bin", "un", "discr", "idx"):
            return [(s, f) for s in dom.num(self, st, v, spec)]
        if k == "cast":
            if v.a[0] == "char":
                return self.emit_char(v, entry)
            return [(s, f) for s in dom.num(self, st, v, spec)]
        return self.unknown_hole(v, entry, ty)

    def emit_char(self, v, entry):
        st, f = entry
        cur = self.lookup(f, v)
        d = set(DANGER)
        if cur is not None:
            if cur[0] == "=":
                c = cur[1] if isinstance(cur[1], str) else chr(cur[1])
                return [(s, f) for s in self.dom.lit(self, st, c)]
            d -= {chr(x) for x in cur[1] if isinstance(x, int)}
        for kk, val in f:
            # eq facts on the same char: c == 'x' false
            if kk.k in ("eq", "bin") and val == ("=", 0):
                a = kk.a[-2:]
                if v in a:
                    o = a[0] if a[1] is v else a[1]
                    if o.k == "c" and (kk.k == "eq" or kk.a[0] == "Eq"):
                        d.discard(o.a[1] if isinstance(o.a[1], str) else chr(o.a[1]))
            if kk.k == "excl" and v.k == "chr" and kk.a[0] in (self.norm(v.a[0]), self.norm(uncut(v.a[0]))):
                d -= val[1]
        if v.k == "chr":
            x = self.danger(v.a[0], f)
            if REFS in x and v.a[0].k == "ext" and v.a[0].a[0] in CUTS:
                x = x | {"&"}
            d &= x
        if v.k == "cast" and v.a[1].k == "elem" and v.a[1].a[0].k == "c" and isinstance(v.a[1].a[0].a[1], (bytes, str)):
            # an entry of a constant alphabet
            cs = v.a[1].a[0].a[1]
            d &= set(cs.decode("latin-1") if isinstance(cs, bytes) else cs)
        return [(s, f) for s in self.dom.hole(self, st, pretty(v), frozenset(d), v)]

    def unknown_hole(self, v, entry, ty=None):
        st, f = entry
        t = strip_refs(ty or "")
        if t in INTS:
            return [(s, f) for s in self.dom.num(self, st, v, None)]
        d = DANGER
        for kk, val in f:
            if kk.k == "excl" and kk.a[0] is self.norm(v):
                d = d - val[1]
        return [(s, f) for s in self.dom.hole(self, st, pretty(v), d, v)]

    def body_for_adt(self, v, ty):
        n = None
        if v.k == "agg" and v.a[0] not in ("tuple", "array"):
            n = v.a[0]
            if n.startswith("crate::"):
                n = n[7:]
            return self.body_for_display(n)
        return None

    def display(self, b, v, entry):
        f2 = frame(b, (v, mk("mrefarg", 1)))
        return list(self.run(f2, 2, (), "ret", entry, None, "given"))

    def emit_root(self, v, root, steps, entry, ty, spec):
        path = tuple((a, b) for a, b, _ in steps)
        dom = self.dom
        lt = steps[-1][2] if steps else ty
        if root.k == "loc":
            return self.unknown_hole(v, entry, ty or "bool")
        if root.k in ("phi", "buf"):
            fr, local, blk, idx = root.a
            t = fr.body.lty(local)
            tt = t
            while tt["k"] == "ref":
                tt = fr.body.ty(tt["a"][0])
            if not steps and tt["s"] in INTS and not dom.dig:
                return [(s, entry[1]) for s in self.dom.num(self, entry[0], v, spec)]
            if steps and strip_refs(lt or "") in INTS:
                return [(s, entry[1]) for s in self.dom.num(self, entry[0], v, spec)]
            disp = self.needs_display(strip_refs(ty or ""))
            if disp and not steps:
                return self.display(disp, v, entry)
            if 1 <= local <= fr.body.argc and t["k"] == "ref" and fr.args[local - 1] is not None and \
                    fr.args[local - 1].k in ("mrefarg", "arg"):
                self.note("reads-own-buffer", pretty(v))
                return self.unknown_hole(v, entry, ty)
            return list(self.run(fr, local, path, (blk, idx), entry, None, None))
        if root.k == "app":
            f2 = root.a[0]
            if f2.body.lty(0)["s"] in INTS and not steps and not dom.dig:
                return [(s, entry[1]) for s in self.dom.num(self, entry[0], v, spec)]
            if steps and strip_refs(lt or "") in INTS:
                return [(s, entry[1]) for s in self.dom.num(self, entry[0], v, spec)]
            rt = f2.body.lty(0)
            while rt["k"] == "ref":
                rt = f2.body.ty(rt["a"][0])
            if not steps and rt["k"] == "adt" and not rt["s"].startswith(("std::", "core::", "alloc::")):
                disp = self.needs_display(rt["s"])
                if disp:
                    return self.display(disp, v, entry)
            # a by-mutable-reference result denotes its receiver
            return list(self.run(f2, 0, path, "ret", entry, None, None))
        if root.k == "virt":
            out = {}
            for m in root.a[0]:
                b = self.P.body(m)
                if b is None:
                    continue
                x = R_apply(self.R, self.R.mkapp(b, root.a[1]), steps)
                for r in self.emit(x, entry, ty, spec):
                    out[r] = 1
            return list(out)
        if root.k == "elem" and root.a[0].k in ("app", "buf", "phi", "elem"):
            xs = R_vec(self.R, root.a[0])
            if xs is not None and len(xs) <= 12:
                out = {}
                for x in xs:
                    gs = self.pushguard(x) if self.dom.remember else []
                    for f3 in self.passing(gs, entry[1]) if gs else [entry[1]]:
                        for y in self.emit_alts([R_apply(self.R, x, steps)], (entry[0], f3)):
                            out[y] = 1
                return list(out)
        # field of a parameter / element / unknown
        disp = self.needs_display(strip_refs(ty or lt or ""))
        if disp:
            return self.display(disp, v, entry)
        t = strip_refs(lt or ty or "")
        if t in INTS:
            return [(s, entry[1]) for s in self.dom.num(self, entry[0], v, spec)]
        if t == "char":
            return self.emit_char(v, entry)
        return self.unknown_hole(v, entry, ty)

    def needs_display(self, t):
        if not t or t in INTS or t in ("str", "char") or t.startswith(("alloc::", "std::", "core::")):
            return None
        return self.body_for_display(t)

    def emit_args(self, v, entry):
        """core::fmt::Arguments value"""
        n, a = v.a[0], v.a[1]
        if n.endswith("from_str") or n.endswith("new_const"):
            return self.emit(a[0], entry)
        tpl = a[0]
        if tpl.k != "c" or tpl.a[0] != "bytes":
            self.note("format-template", pretty(tpl))
            return [entry]
        args = a[1].a[2] if a[1].k == "agg" else ()
        cur = [entry]
        for p in decode_template(tpl.a[1]):
            nxt = {}
            for e in cur:
                if p[0] == "lit":
                    rs = [(s, e[1]) for s in self.dom.lit(self, e[0], p[1])]
                else:
                    if p[1] >= len(args):
                        self.note("format-arg", pretty(v)[:80])
                        rs = [e]
                    else:
                        rs = self.emit_fmt(args[p[1]], e, p[2])
                for r in rs:
                    nxt[r] = 1
            cur = self.merge(nxt)
        return cur

    def merge(self, states):
        """join states equal up to their mergeable part"""
        out = {}
        for s, f in states:
            k, extra = self.dom.key(s)
            kk = (k, f)
            if kk in out and extra is not None:
                out[kk] = self.dom.join(out[kk], s)
            elif kk not in out:
                out[kk] = s
        return [(s, f) for (k, f), s in out.items()]

    def emit_fmt(self, a, entry, spec):
        """one rt::Argument"""
        if a.k != "ext" or not a.a[1]:
            return self.unknown_hole(a, entry)
        kind = a.a[0].split("::")[-1]
        x = a.a[1][0]
        ty = a.a[2][0] if a.a[2] else ""
        t = strip_refs(ty)
        if kind in ("new_upper_hex", "new_lower_hex", "new_binary", "new_octal", "from_usize", "new_lower_exp"):
            return [(s, entry[1]) for s in self.dom.num(self, entry[0], x, dict(spec, kind=kind))]
        if kind == "new_debug":
            if t in INTS:
                return [(s, entry[1]) for s in self.dom.num(self, entry[0], x, spec)]
            b = self.body_for_display(t, "core::fmt::Debug")
            if b is not None and b.derived and self.fieldless(t):
                return [(s, entry[1]) for s in self.dom.hole(self, entry[0], pretty(x) + ":?", frozenset(), x)]
            return [(s, entry[1]) for s in self.dom.hole(self, entry[0], pretty(x) + ":?", DANGER, x)]
        if t in INTS:
            if x.k == "c" and x.a[0] == "int":
                sp = spec or {}
                if not sp:
                    return [(s, entry[1]) for s in self.dom.lit(self, entry[0], str(x.a[1]))]
            return [(s, entry[1]) for s in self.dom.num(self, entry[0], x, spec)]
        if t.startswith("uuid::"):
            return [(s, entry[1]) for s in self.dom.hole(self, entry[0], "uuid", frozenset(), x)]
        return self.emit(x, entry, t, spec)

    def fieldless(self, t):
        a = self.P.adts["ppt_rs"].get("crate::" + t)
        return bool(a and a["enum"] and all(not x["f"] for x in a["v"]))

    def emit_ext(self, v, entry, ty, spec):
        n, a = v.a[0], v.a[1]
        s = n.split("::")[-1]
        R, dom = self.R, self.dom
        st, f = entry
        if n.startswith("core::fmt::Arguments"):
            return self.emit_args(v, entry)
        if s == "to_string" and a:
            t = strip_refs(v.a[2][0]) if v.a[2] else ""
            if t in INTS:
                return [(x, f) for x in dom.num(self, st, a[0], spec)]
            return self.emit(a[0], entry, t or ty, spec)
        if s in ("new", "with_capacity", "default") and ("String" in n or "Vec" in n):
            return [entry]
        if s == "default":
            return [entry]
        if s in ("from", "clone", "deref", "as_ref", "into", "borrow", "as_str", "into_owned", "to_owned", "as_bytes",
                 "into_bytes", "to_vec", "index", "from_utf8_lossy", "unwrap_unchecked", "into_inner", "from_utf8") and a:
            if s == "index" and ("String" in n or "str" in n or "Vec" in n or "[T]" in n):
                if "Vec" in n or "[T]" in n:
                    return self.emit(R.elem(a[0]), entry, ty, spec)
                return self.derived(v, a[0], entry)
            if s in ("from_utf8",):
                return self.emit(a[0], entry, ty, spec)
            if s == "index":
                return self.unknown_hole(v, entry, ty)
            return self.emit(a[0], entry, ty, spec)
        if s == "must_use":
            return self.emit(a[0], entry, ty, spec)
        if "Option" in n or "Result" in n:
            if s in ("unwrap", "expect", "unwrap_unchecked"):
                return self.emit(R.pay(a[0]), entry, ty, spec)
            if s == "unwrap_or":
                return self.emit(mk("optalt", a[0], R.pay(a[0]), a[1]), entry, ty, spec)
            if s == "unwrap_or_else":
                return self.emit(mk("optalt", a[0], R.pay(a[0]), R.call_value(a[1], (UNK,), None)), entry, ty, spec)
            if s == "unwrap_or_default":
                t = strip_refs(v.a[2][0]) if v.a[2] else ""
                if t in INTS:
                    return [(x, f) for x in dom.num(self, st, v, spec)]
                return self.emit(mk("optalt", a[0], R.pay(a[0]), S("")), entry, ty, spec)
            if s == "map_or":
                return self.emit(mk("optalt", a[0], R.call_value(a[2], (R.pay(a[0]),), None), a[1]), entry, ty, spec)
            if s == "map_or_else":
                return self.emit(mk("optalt", a[0], R.call_value(a[2], (R.pay(a[0]),), None), R.call_value(a[1], (), None)),
                                 entry, ty, spec)
        if s == "collect":
            e = R.elem(a[0])
            return self.emit_star(e, entry)
        if s == "concat":
            return self.emit_vec(a[0], entry, S(""))
        if s == "join":
            return self.emit_vec(a[0], entry, a[1] if len(a) > 1 else S(""))
        if s == "repeat" and "str" in n:
            return self.emit_star(a[0], entry)
        if s == "add" and "String" in n:
            out = []
            for e in self.emit(a[0], entry):
                out.extend(self.emit(a[1], e))
            return out
        if s in ("replace", "replacen") and "str" in n and len(a) >= 3:
            return self.emit_replace(v, a, entry)
        if s in ("derived", "sliced", "to_uppercase", "to_lowercase", "trim", "trim_start", "trim_end", "trim_start_matches",
                 "trim_end_matches", "trim_matches", "strip_prefix", "strip_suffix", "get", "to_ascii_uppercase",
                 "to_ascii_lowercase", "split_off", "take", "chars", "rev"):
            if s in ("trim", "trim_start", "trim_end") and self.collected(a[0]):
                return self.emit(a[0], entry, ty, spec)
            return self.derived(v, a[0], entry)
        if s in INT_FUNCS or strip_refs(ty or "") in INTS:
            return [(x, f) for x in dom.num(self, st, v, spec)]
        return self.unknown_hole(v, entry, ty)

    def collected(self, v):
        return v.k in ("app", "ext", "buf", "phi", "c", "optalt")

    def derived(self, v, src, entry):
        st, f = entry
        if src.k == "c" and src.a[0] == "str":
            s = v.a[0].split("::")[-1]
            fn = {"to_uppercase": str.upper, "to_lowercase": str.lower, "trim": str.strip}.get(s)
            if fn:
                return [(x, f) for x in self.dom.lit(self, st, fn(src.a[1]))]
        d = self.danger(v, f)
        return [(x, f) for x in self.dom.hole(self, st, pretty(v), d, v)]

    def emit_replace(self, v, a, entry):
        st, f = entry
        src, pat, to = a[0], a[1], a[2]
        if src.k == "c" and src.a[0] == "str" and pat.k == "c":
            parts = src.a[1].split(pat.a[1])
            cur = [entry]
            for i, p in enumerate(parts):
                nxt = []
                for e in cur:
                    es = [e]
                    if i:
                        es = self.emit(to, e)
                    for x in es:
                        nxt.extend((s2, x[1]) for s2 in self.dom.lit(self, x[0], p))
                cur = self.merge(nxt)
            return cur
        d = self.danger(v, f)
        return [(x, f) for x in self.dom.hole(self, st, pretty(v), d, v)]

    def emit_vec(self, v, entry, sep):
        """text of a joined collection: its elements with sep between them"""
        had = self.lookup(entry[1], VEMPTY) is not None
        e = (entry[0], frozenset(x for x in entry[1] if x[0] is not VEMPTY))
        out = {}
        for s, f in self.vec_content(v, e, sep):
            f = {x for x in f if x[0] is not VEMPTY}
            if had:
                f.add((VEMPTY, ("=", 1)))
            out[(s, frozenset(f))] = 1
        return list(out)

    @staticmethod
    def vempty(entry):
        return (entry[0], frozenset({x for x in entry[1] if x[0] is not VEMPTY} | {(VEMPTY, ("=", 1))}))

    def vec_content(self, v, entry, sep):
        """elements of a collection under construction (the fact VEMPTY marks that it holds nothing yet)"""
        R = self.R
        k = v.k
        if v is DEAD:
            return []
        if k == "cur":
            return [entry]
        if k == "agg" and v.a[0] == "array":
            cur = [self.vempty(entry)]
            for i, x in enumerate(v.a[2]):
                nxt = {}
                for e in cur:
                    for r in self.joined(x, e, sep):
                        nxt[r] = 1
                cur = self.merge(nxt)
            return cur
        root, steps = v, []
        while root.k == "f":
            steps.append((root.a[1], root.a[2], root.a[3]))
            root = root.a[0]
        steps.reverse()
        path = tuple((x, y) for x, y, _ in steps)
        if root.k in ("buf", "phi"):
            fr, local, blk, idx = root.a
            if not (1 <= local <= fr.body.argc and fr.body.lty(local)["k"] == "ref"):
                return list(self.run(fr, local, path, (blk, idx), entry, sep, None))
        if root.k == "app":
            return list(self.run(root.a[0], 0, path, "ret", entry, sep, None))
        if k == "ext":
            s = v.a[0].split("::")[-1]
            if s in ("new", "with_capacity", "default"):
                return [self.vempty(entry)]
        if k == "optalt":
            return list(dict.fromkeys(self.vec_content(v.a[1], entry, sep) + self.vec_content(v.a[2], entry, sep)))
        e = R.elem(v)
        entry = self.vempty(entry)
        out, todo, n = {entry}, [entry], 0
        while todo:
            x = todo.pop()
            n += 1
            if n > 300:
                raise Limit("vec")
            for r in self.joined(e, x, sep):
                r = (r[0], frozenset(y for y in r[1] if not (y[0].vol & self.newvol(e))) if e.vol else r[1])
                if r not in out:
                    out.add(r)
                    todo.append(r)
        return list(out)

    # ------------------------------------------------------------ dangerous characters
    def danger(self, v, facts=frozenset()):
        """markup characters a string value may contain"""
        if v is DEAD:
            return frozenset()
        ef = frozenset(x for x in facts if x[0].k == "excl")
        key = (v, ef)
        r = self.danger_memo.get(key)
        if r is not None:
            return r
        self.danger_memo[key] = DANGER
        r = self._danger(v, ef)
        self.danger_memo[key] = r
        return r

    def _danger(self, v, f):
        if v.k == "c":
            return frozenset(lit_danger(v.a[1])) if v.a[0] in ("str", "char") else frozenset()
        if v.k == "ext":
            n, a = v.a[0], v.a[1]
            s = n.split("::")[-1]
            if s in ("replace", "replacen") and len(a) >= 3:
                d = self.danger(a[0], f)
                to = self.danger(a[2], f)
                if a[1].k == "c" and s == "replace" and len(a[1].a[1]) == 1:
                    d = (DANGER if a[1].a[1] == ESCAPE_CHAR and "\x01" in d else d) - {a[1].a[1]}
                elif a[1].k == "agg" and a[1].a[0] == "array" and s == "replace":
                    d = d - {x.a[1] for x in a[1].a[2] if x.k == "c"}
                elif a[1].k in ("clo", "fn") and s == "replace":
                    d = d - {c for c in DANGER if self.bool_of(self.R.call_value(a[1], (mk("c", "char", c),), None)) == 1}
                return d | to
        dd = DangerDomain()
        e = Engine(self.P, self.R, dd)
        e.danger_memo = self.danger_memo
        e.active = list(self.active)
        if len(e.active) > 60:
            return DANGER
        try:
            if v.k == "ext" and v.a[0].split("::")[-1] in ("derived", "sliced", "split_off", "take", "to_uppercase", "to_lowercase", "trim", "trim_start",
                                                        "trim_end", "trim_start_matches", "trim_end_matches", "trim_matches",
                                                        "strip_prefix", "strip_suffix", "to_ascii_uppercase", "index", "get") and v.a[1]:
                d = self.danger(v.a[1][0], f)
                return d | {"&"} if REFS in d and v.a[0].split("::")[-1] in CUTS else d
            out = e.emit(v, (frozenset(), f))
        except Limit:
            return DANGER
        if not out:
            return DANGER
        d = frozenset()
        for s, _ in out:
            d |= s
        return d


def R_vec(R, v):
    return R.vecelems(v)


def R_apply(R, v, steps):
    return R.apply(v, [("f",) + tuple(s) for s in steps])


INT_FUNCS = {"len", "count", "min", "max", "saturating_sub", "saturating_add", "abs", "clamp", "round", "floor", "ceil",
             "unsigned_abs", "abs_diff", "sum", "div_ceil", "as_secs", "wrapping_mul", "pow", "to_emu", "rem_euclid"}


def uncut(v):
    while v.k == "ext" and v.a[0] in ("sliced", "derived") and v.a[1]:
        v = v.a[1][0]
    return v


def lit_danger(s):
    """markup characters of a literal, with well-formed entity references counted as safe"""
    import re
    t = re.sub(r"&(amp|lt|gt|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);", "", s)
    return set(t) & set(DANGER) | ({REFS} if t != s else set())


class DangerDomain(Domain):
    def lit(self, eng, st, s):
        return [st | frozenset(lit_danger(s))]

    def hole(self, eng, st, desc, danger, v):
        return [st | danger]

    def key(self, st):
        return 0, st

    def join(self, a, b):
        return a | b


class ConstDomain(Domain):
    dig = True
    """which constant does a bool/int/str-valued application return?"""

    def lit(self, eng, st, s):
        return [s if st is None else "?"]

    def hole(self, eng, st, desc, danger, v):
        return ["?"]

    def num(self, eng, st, v, spec):
        if v.k == "c" and st is None:
            return [int(v.a[1])] if v.a[0] in ("int", "bool") else ["?"]
        return ["?"]

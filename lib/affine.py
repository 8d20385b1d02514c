"""Affine normal forms of integer values: const + sum(coef * atom), with symbolic bounds of the atoms
(loop indices range over their iterator, flags over 0..1, counts from 0)."""
from value import mk, UNK

INF = float("inf")


class Aff:
    __slots__ = ("c", "t")

    def __repr__(self):
        return " + ".join([str(self.c)] + ["%s*%r" % (k, a) for a, k in self.t.items()])

    def __init__(self, c=0, t=None):
        self.c, self.t = c, dict(t or {})

    def add(self, o, k=1):
        r = Aff(self.c + k * o.c, self.t)
        for a, x in o.t.items():
            y = r.t.get(a, 0) + k * x
            if y:
                r.t[a] = y
            else:
                r.t.pop(a, None)
        return r

    def scale(self, k):
        return Aff(self.c * k, {a: x * k for a, x in self.t.items()} if k else {})

    def key(self):
        return (self.c, frozenset(self.t.items()))


class Affine:
    def __init__(self, R):
        self.R = R
        self.memo = {}
        self.flag = set()

    def of(self, v, d=0):
        if v in self.memo:
            return self.memo[v]
        r = self._of(v, d)
        self.memo[v] = r
        return r

    def _of(self, v, d):
        k, a = v.k, v.a
        if d > 30:
            return Aff(0, {v: 1})
        if k == "c" and a[0] in ("int", "bool"):
            return Aff(int(a[1]))
        if k == "cast":
            return self.of(a[1], d + 1)
        if k == "bin":
            op = a[0].replace("WithOverflow", "").replace("Unchecked", "")
            if op in ("Add", "Sub"):
                return self.of(a[1], d + 1).add(self.of(a[2], d + 1), 1 if op == "Add" else -1)
            if op == "Mul":
                x, y = self.of(a[1], d + 1), self.of(a[2], d + 1)
                if not x.t:
                    return y.scale(x.c)
                if not y.t:
                    return x.scale(y.c)
            return Aff(0, {v: 1})
        if k == "app":
            x = self.R.inl(v)
            if x is v:
                x = self.R.predval(v)
            if x is not None and x is not v:
                return self.of(x, d + 1)
            return Aff(0, {v: 1})
        if k == "ext" and a[0].split("::")[-1] == "from" and len(a[1]) == 1:
            if "From<bool>" in a[0]:
                self.flag.add(a[1][0])
            return Aff(0, {a[1][0]: 1}) if a[1][0].k not in ("c", "bin", "cast") else self.of(a[1][0], d + 1)
        return Aff(0, {v: 1})

    def bounds(self, atom):
        """(lo, hi) as Aff or None when unbounded"""
        if atom in self.flag:
            return Aff(0), Aff(1)
        if atom.k == "idx":
            s = atom.a[0]
            while s.k == "app":
                x = self.R.inl(s)
                if x is s:
                    break
                s = x
            if s.k == "ext" and s.a[0].split("::")[-1] == "new" and len(s.a[1]) == 2:
                return self.of(s.a[1][0]), self.of(s.a[1][1])
            if s.k == "agg" and "Range" in str(s.a[1]) + str(s.a[0]) and len(s.a[2]) == 2:
                hi = self.of(s.a[2][1])
                if "Inclusive" not in str(s.a[1]) + str(s.a[0]):
                    hi = hi.add(Aff(1), -1)
                return self.of(s.a[2][0]), hi
            if s.k == "agg" and "Range" in str(s.a[1]) + str(s.a[0]):
                return self.of(s.a[2][0]), None
            return Aff(0), Aff(-1, {mk("ext", "len", (s,), ()): 1})
        return Aff(0), None

    def extreme(self, e, sign, fixed, d=0):
        """minimum (sign=-1) or maximum (sign=+1) of e, a number or +-inf"""
        e = Aff(e.c, e.t)
        for _ in range(40):
            todo = [a for a in e.t if a in fixed]
            if todo:
                a = todo[0]
                k = e.t.pop(a)
                e.c += k * fixed[a]
                continue
            todo = sorted((a for a in e.t if a.k == "idx"), key=lambda a: -a.depth)
            todo = todo or [a for a in e.t if a in self.flag] or list(e.t)
            if not todo:
                return e.c
            a = todo[0]
            k = e.t.pop(a)
            lo, hi = self.bounds(a)
            b = hi if (k > 0) == (sign > 0) else lo
            if b is None:
                # another atom may cancel it only if it is the same atom, which it is not any more
                return sign * INF
            e = e.add(b, k)
        return sign * INF

    def low(self, e):
        return self.extreme(e, -1, {})

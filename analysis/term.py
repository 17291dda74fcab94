"""Interned terms and a small reduced ordered BDD package over term atoms."""
import itertools


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


def reset():
    _tab.clear()
    BDD.reset()


class _B:
    """ROBDD: 0 = false, 1 = true."""

    def reset(self):
        self.n = [None, None]
        self.tab = {}
        self.var = {}
        self.atoms = []
        self.memo = {}

    def __init__(self):
        self.reset()

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.tab.get(k)
        if r is None:
            r = len(self.n)
            self.n.append(k)
            self.tab[k] = r
        return r

    def atom(self, t):
        v = self.var.get(t)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(t)
            self.var[t] = v
        return self.node(v, 0, 1)

    def _top(self, f):
        return self.n[f][0] if f > 1 else 1 << 60

    def _co(self, f, v):
        if f > 1 and self.n[f][0] == v:
            return self.n[f][1], self.n[f][2]
        return f, f

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self._top(f), self._top(g), self._top(h))
        f0, f1 = self._co(f, v)
        g0, g1 = self._co(g, v)
        h0, h1 = self._co(h, v)
        r = self.node(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def AND(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
        return r

    def OR(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
        return r

    def implies(self, f, g):
        return self.ite(f, g, 1) == 1

    def restrict(self, f, c):
        """Coudert-Madre restrict: agrees with f wherever c holds, usually smaller."""
        if c == 0:
            return 0
        if c == 1 or f <= 1:
            return f
        if f == c:
            return 1
        k = ("r", f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf, vc = self._top(f), self._top(c)
        if vc < vf:
            r = self.restrict(f, self.OR(self.n[c][1], self.n[c][2]))
        else:
            f0, f1 = self._co(f, vf)
            c0, c1 = self._co(c, vf)
            if c0 == 0:
                r = self.restrict(f1, c1)
            elif c1 == 0:
                r = self.restrict(f0, c0)
            else:
                r = self.node(vf, self.restrict(f0, c0), self.restrict(f1, c1))
        # keep the original if that is no worse in support
        if not self.support_ids(r) <= self.support_ids(f):
            r = f
        self.memo[k] = r
        return r

    def cof(self, f, assign):
        """cofactor; assign: dict atom term -> bool"""
        m = {self.var[t]: b for t, b in assign.items() if t in self.var}
        if not m:
            return f
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.n[x]
            if v in m:
                r = go(hi if m[v] else lo)
            else:
                r = self.node(v, go(lo), go(hi))
            memo[x] = r
            return r
        return go(f)

    def mapatoms(self, f, fn):
        """rebuild f with every atom t replaced by the BDD fn(t)"""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.n[x]
            r = self.ite(fn(self.atoms[v]), go(hi), go(lo))
            memo[x] = r
            return r
        return go(f)

    def support_ids(self, f):
        k = ("s", f)
        r = self.memo.get(k)
        if r is None:
            if f <= 1:
                r = frozenset()
            else:
                v, lo, hi = self.n[f]
                r = self.support_ids(lo) | self.support_ids(hi) | {v}
            self.memo[k] = r
        return r

    def support(self, f):
        return [self.atoms[v] for v in sorted(self.support_ids(f))]

    def exists(self, f, pred):
        """existentially quantify every atom for which pred(atom)"""
        vs = [v for v in self.support_ids(f) if pred(self.atoms[v])]
        for v in vs:
            t = self.atoms[v]
            f = self.OR(self.cof(f, {t: True}), self.cof(f, {t: False}))
        return f

    def icubes(self, f):
        st = [(f, ())]
        while st:
            x, acc = st.pop()
            if x == 0:
                continue
            if x == 1:
                yield list(acc)
                continue
            v, lo, hi = self.n[x]
            st.append((lo, acc + ((self.atoms[v], False),)))
            st.append((hi, acc + ((self.atoms[v], True),)))

    def cubes(self, f):
        return list(self.icubes(f))

    def show(self, f):
        if f == 0:
            return "false"
        if f == 1:
            return "true"
        return " | ".join(
            " & ".join(("" if p else "!") + show(t) for t, p in c) for c in itertools.islice(self.icubes(f), 6))


BDD = _B()


def boolt(b):
    return mk("bool", b)


TRUE = None


def show(t, d=0):
    if d > 12:
        return ".."
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    o, a = t.op, t.a
    if o == "c":
        return repr(a[0])
    if o == "param":
        return str(a[0])
    if o == "bool":
        return "[" + BDD.show(a[0]) + "]"
    if o == "agg":
        n = a[0].split("::")[-1]
        return f"{n}{'::' + a[1] if a[1] and a[1] != n else ''}({', '.join(show(x, d + 1) for x in a[2])})"
    if o == "field":
        return f"{show(a[0], d + 1)}.{a[1]}"
    if o == "nf":
        return f"{show(a[0], d + 1)}.0"
    if o == "vf":
        return f"{show(a[0], d + 1)}.{a[1]}.{a[2]}"
    if o == "mget":
        return f"{show(a[0], d + 1)}[{show(a[1], d + 1)}]"
    if o == "at":
        return f"{show(a[0], d + 1)}@[{show(a[1], d + 1)}]"
    if o == "ver":
        return f"{show(a[0], d + 1)}#{a[1]}"
    if o == "coll":
        return f"coll<{show(a[0], d + 1)}#{a[2]}>"
    if o == "choice":
        return "{" + "; ".join(f"{BDD.show(g)} -> {show(v, d + 1)}" for g, v in a[0]) + "}"
    if o == "prim":
        return f"{a[0]}({', '.join(show(x, d + 1) for x in a[1:])})"
    if o == "loop":
        return f"<{show(a[0], d + 1)}>" + (f"'{a[1]}" if a[1] else "")
    if o in ("elem", "key", "pos"):
        return f"{o}{show(a[0], d + 1)}"
    if o == "exists":
        return f"exists{show(a[0], d + 1)}.{BDD.show(a[1])}"
    if o == "clos":
        return f"closure({a[0].split('::')[-2] if '::' in a[0] else a[0]})"
    return f"{o}({', '.join(show(x, d + 1) for x in a)})"


def subterms(t, seen=None):
    """all subterms (including the ones inside guards of choices)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "bool":
            st.extend(BDD.support(x.a[0]))
        elif x.op == "choice":
            for g, v in x.a[0]:
                st.append(v)
                st.extend(BDD.support(g))
        elif x.op == "exists":
            st.append(x.a[0])
            st.extend(BDD.support(x.a[1]))
        else:
            st.extend(x.a)


def rewrite(t, fn, memo=None):
    """bottom-up rewriting of a term; fn(term) -> term"""
    if memo is None:
        memo = {}

    def bdd(f):
        def at(x):
            y = go(x)
            if y is x:
                return BDD.atom(x)
            if y.op == "bool":
                return y.a[0]
            return BDD.atom(y)
        return BDD.mapatoms(f, at)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "bool":
            r = mk("bool", bdd(x.a[0]))
        elif x.op == "choice":
            r = mk("choice", tuple((bdd(g), go(v)) for g, v in x.a[0]))
        elif x.op == "exists":
            r = mk("exists", go(x.a[0]), bdd(x.a[1]))
        else:
            r = mk(x.op, *[go(y) for y in x.a])
        r = fn(r)
        memo[x] = r
        return r
    go.bdd = bdd
    return go

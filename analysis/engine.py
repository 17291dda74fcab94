"""Guarded-effect abstract interpretation of MIR.

Every function is read once per call context; branches are joined at their merge point, values
become guarded choices, loops become quantified contexts ("for every element of S").  The result
is the set of effects (events) with guard, loop context and order, the returned value and the
final content of everything reachable from the arguments.  Nothing is executed: no input value is
ever chosen, collections stay symbolic, loops are abstracted by one pass over their body.
"""
import sys
from term import mk, T, BDD, show, subterms, rewrite
import mir

sys.setrecursionlimit(20000)

UNIT = lambda: mk("agg", "()", "", ())
BOT = lambda: mk("bot")
OPTION = "core::option::Option"
RESULT = "core::result::Result"


def c(v):
    return mk("c", v)


def agg(n, v, *f):
    return mk("agg", n, v, tuple(f))


def tup(*f):
    return mk("agg", "()", "", tuple(f))


def some(v):
    return agg(OPTION, "Some", v)


def none():
    return agg(OPTION, "None")


def boolv(b):
    return mk("bool", b)


class Event:
    __slots__ = ("op", "path", "args", "pc", "loops", "seq", "span", "stack", "assume", "extra", "old")

    def __repr__(self):
        ls = " ".join("for " + show(l) for l, u in self.loops)
        return (f"#{self.seq} {ls} [{BDD.show(self.pc)}] {self.op} {show(self.path) if self.path else ''}"
                f"({', '.join(show(x) for x in self.args)}) @{self.span}")


class State:
    __slots__ = ("pc", "assume", "store", "loops")

    def __init__(self, pc, assume, store, loops):
        self.pc = pc
        self.assume = assume
        self.store = store
        self.loops = loops

    def copy(self):
        return State(self.pc, self.assume, dict(self.store), self.loops)


class Frame:
    __slots__ = ("body", "fid", "self_ty", "promoted", "crate")

    def __init__(self, body, fid, self_ty, promoted=None):
        self.body = body
        self.fid = fid
        self.self_ty = self_ty
        self.promoted = promoted
        self.crate = body.crate


class Unsupported(Exception):
    pass


class Interp:
    def __init__(self, prog, prims=None, max_depth=40):
        self.P = prog
        self.log = []
        self.dry = 0
        self.seq = 0
        self.uid = 0
        self.stack = []
        self.shape_ev = {}
        self.content_ev = {}
        self.filled_by = {}     # existence -> collections that are not empty exactly then
        self.facts = None      # term -> bool or None: the case under consideration
        self.loop_info = {}
        self.ways_out = {}
        self.unknown = []          # unmodelled calls met
        self.fn_seen = set()       # functions analysed
        self.calls_seen = 0
        self.prims = prims or {}
        self.fnvals = {}
        self.max_depth = max_depth
        self.coll_pc = {}
        self.kind_of = {}
        self.reversed = set()
        self.unordered = set()
        self.keystack = []
        self.printing = False
        self.hooks = {}
        self.newtypes = {n for n, a in prog.adts.items()
                         if a["kind"] == "Struct" and len(a["vs"]) == 1 and len(a["vs"][0]["f"]) == 1}
        import models
        self.M = models.Models(self)

    # ------------------------------------------------------------------ basics
    def nseq(self):
        self.seq += 1
        return self.seq

    def nuid(self):
        self.uid += 1
        return self.uid

    def event(self, st, op, path, args, span=None, extra=None, old=None):
        s = self.nseq()
        if not self.dry:
            e = Event()
            e.op, e.path, e.args, e.pc, e.loops, e.seq = op, path, tuple(args), st.pc, st.loops, s
            e.span = span
            e.stack = tuple(self.stack)
            e.assume = st.assume
            e.extra = extra
            e.old = old
            self.log.append(e)
        return s

    # ------------------------------------------------------------------ values
    def choice(self, alts, care=1):
        flat = []
        for g, v in alts:
            if g == 0:
                continue
            if v.op == "choice":
                for g2, v2 in v.a[0]:
                    gg = BDD.AND(g, g2)
                    if gg:
                        flat.append((gg, v2))
            elif v.op != "bot":
                flat.append((g, v))
        if not flat:
            return BOT()
        m = {}
        for g, v in flat:
            m[v] = BDD.OR(m[v], g) if v in m else g
        if len(m) == 1:
            return next(iter(m))
        vs = list(m)
        if all(v.op == "bool" for v in vs):
            r = 0
            tot = 0
            for v in vs:
                r = BDD.OR(r, BDD.AND(m[v], v.a[0]))
                tot = BDD.OR(tot, m[v])
            return boolv(BDD.restrict(r, tot))
        v0 = vs[0]
        if v0.op == "agg" and all(v.op == "agg" and v.a[:2] == v0.a[:2] and len(v.a[2]) == len(v0.a[2]) for v in vs):
            fs = [self.choice([(m[v], v.a[2][i]) for v in vs]) for i in range(len(v0.a[2]))]
            return agg(v0.a[0], v0.a[1], *fs)
        return mk("choice", tuple(sorted(((g, v) for v, g in m.items()), key=lambda x: x[1].id)))

    def alts(self, v):
        return v.a[0] if v.op == "choice" else ((1, v),)

    def simp(self, v, st):
        """drop alternatives impossible in the current state"""
        if v.op == "choice":
            k = BDD.AND(st.pc, st.assume)
            out = [(g, x) for g, x in v.a[0] if BDD.AND(g, k) != 0]
            if len(out) < len(v.a[0]):
                return self.choice(out) if out else v
        return v

    def bdd(self, v):
        if v.op == "bool":
            return v.a[0]
        if v.op == "c":
            return 1 if v.a[0] else 0
        if v.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.bdd(x)) for g, x in v.a[0]])
        if v.op == "bot":
            return 0
        return BDD.atom(v)

    def as_coll(self, v):
        if v.op == "coll":
            return v
        return mk("coll", v, 0, 0, None)

    def srckey(self, v):
        """identity of the current content of a collection value"""
        if v.op == "coll":
            if v.a[2] == 0:
                return v.a[0]
            return mk("ver", v.a[0], v.a[2])
        return v

    def shapekey(self, v):
        if v.op == "coll":
            if v.a[1] == 0:
                return v.a[0]
            return mk("ver", v.a[0], v.a[1])
        return v

    def bump(self, v, shape=True, contribs=None, ev=None, seq=None):
        v = self.as_coll(v)
        s = seq if seq is not None else self.nseq()
        n = mk("coll", v.a[0], s if shape else v.a[1], s, contribs)
        if shape:
            self.shape_ev[s] = (ev, v)
        self.content_ev[s] = (ev, v)
        return n

    def new_coll(self, st, kind, contribs=()):
        u = self.nuid()
        o = mk("new", kind, u, len(st.loops))
        return mk("coll", o, 0, 0, tuple(contribs))

    # membership
    def has(self, v, k, fuel=12):
        if v.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.has(x, k, fuel)) for g, x in v.a[0]])
        if v.op == "agg" and v.a[0] == "[]":
            return BDD.OR(*[self.eqv(x, k) for x in v.a[2]])
        if v.op == "coll":
            s = v.a[1]
            if s == 0 and v.a[0].op == "new" and v.a[3] == ():
                return 0
            if s in self.shape_ev and fuel > 0:
                ev, prev = self.shape_ev[s]
                if ev is not None:
                    kind = ev[0]
                    if kind in ("ins", "ensure"):
                        return BDD.ite(BDD.AND(ev[2], self.eqv(ev[1], k)), 1, self.has(prev, k, fuel - 1))
                    if kind == "rem":
                        return BDD.ite(BDD.AND(ev[2], self.eqv(ev[1], k)), 0, self.has(prev, k, fuel - 1))
                    if kind == "clear":
                        return BDD.ite(ev[2], 0, self.has(prev, k, fuel - 1))
                    if kind == "filter":
                        r = self.has(prev, k, fuel - 1)
                        return BDD.ite(ev[3], BDD.AND(r, self.subst_guard(ev[2], ev[1], k)), r)
                    if kind == "join":
                        tot = BDD.OR(*[g for g, _ in ev[1]])
                        return BDD.restrict(BDD.OR(*[BDD.AND(g, self.has(x, k, fuel - 1)) for g, x in ev[1]]), tot)
            v = self.shapekey(v)
        return self.fact(mk("has", v, k))

    def subst_guard(self, g, old, new):
        """the guard with one term replaced"""
        rw = rewrite(None, lambda x: new if x is old else x)

        def at(t):
            t2 = rw(t)
            if t2 is not t and t2.op == "eq":
                return self.eqv(t2.a[0], t2.a[1])
            return BDD.atom(t2)
        return BDD.mapatoms(g, at)

    def fact(self, t):
        if self.facts is not None:
            b = self.facts(t)
            if b is not None:
                return 1 if b else 0
        return BDD.atom(t)

    def empty(self, v):
        if v.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.empty(x)) for g, x in v.a[0]])
        if v.op == "agg" and v.a[0] == "[]":
            return 0 if v.a[2] else 1
        if v.op == "coll" and v.a[3] is not None:
            r = 0
            for k in v.a[3]:
                loops, g, val = k.a[0], k.a[1], k.a[2]
                r = BDD.OR(r, self.exists(loops, g))
            for a in BDD.support(r):
                if a.op == "exists" and BDD.atom(a) == r:
                    self.filled_by.setdefault(a, set()).add(self.srckey(v))
            return BDD.NOT(r)
        return BDD.atom(mk("empty", self.srckey(v)))

    def exists(self, loops, g):
        """guard holding iff for some binding of the loops g holds"""
        if g == 0:
            return 0
        loops = tuple(loops)
        # a loop none of whose variables matter only requires its source to be non-empty
        if not loops:
            return g
        srcs = {l.a[0] for l in loops}
        if any(a.op == "empty" and a.a[0] in srcs for a in BDD.support(g)):
            g = BDD.mapatoms(g, lambda t: 0 if t.op == "empty" and t.a[0] in srcs else BDD.atom(t))
            if g == 0:
                return 0
        if g == 1 and len(loops) == 1:
            return BDD.NOT(BDD.atom(mk("empty", loops[0].a[0])))
        return BDD.atom(mk("exists", loops, g))

    def length(self, v):
        if v.op == "choice":
            return self.choice([(g, self.length(x)) for g, x in v.a[0]])
        if v.op == "agg" and v.a[0] == "[]":
            return c(len(v.a[2]))
        if v.op == "coll" and v.a[3] is not None and v.a[3] == ():
            return c(0)
        return mk("len", self.srckey(v))

    def mget(self, v, k):
        if v.op == "choice":
            return self.choice([(g, self.mget(x, k)) for g, x in v.a[0]])
        if v.op == "agg" and v.a[0] == "[]":
            if k.op == "c" and isinstance(k.a[0], int) and 0 <= k.a[0] < len(v.a[2]):
                return v.a[2][k.a[0]]
        if v.op == "coll":
            ev = self.content_ev.get(v.a[2])
            if ev and ev[0] and ev[0][0] in ("ins", "set") and ev[0][1] is k and len(ev[0]) > 3:
                return ev[0][3]
            if v.a[3] is not None and k.op == "c" and isinstance(k.a[0], int) and 0 <= k.a[0] < len(v.a[3]):
                cs = v.a[3]
                if all(not x.a[0] for x in cs[:k.a[0] + 1]):
                    return cs[k.a[0]].a[2]
        s = self.srckey(v)
        if k.op == "pos":
            lp = k.a[0]
            if strip(lp.a[0]) is strip(s):
                return mk("elem", lp)
        return mk("mget", s, k)

    # equality
    def eqv(self, a, b):
        if a is b:
            return 1
        if a.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.eqv(x, b)) for g, x in a.a[0]])
        if b.op == "choice":
            return self.eqv(b, a)
        if a.op == "bot" or b.op == "bot":
            return 0
        if a.op == "c" and b.op == "c":
            return 1 if a.a[0] == b.a[0] else 0
        if a.op == "bool" or b.op == "bool":
            x, y = self.bdd(a), self.bdd(b)
            return BDD.ite(x, y, BDD.NOT(y))
        if a.op == "discr" and b.op == "discr":
            return self.eqv(a.a[0], b.a[0])
        if a.op == "discr" and b.op == "c":
            for val, vi, vn in a.a[1]:
                if val == b.a[0]:
                    return self.is_variant(a.a[0], a.a[1], vn)
            return 0
        if b.op == "discr" and a.op == "c":
            return self.eqv(b, a)
        if a.op == "agg" and b.op == "agg":
            if a.a[0] == b.a[0]:
                if a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
                    return 0
                return BDD.AND(*[self.eqv(x, y) for x, y in zip(a.a[2], b.a[2])])
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and y.op not in ("agg", "coll"):
                n, vn, fs = x.a
                if n == "()":
                    return BDD.AND(*[self.eqv(f, mk("field", y, i)) for i, f in enumerate(fs)])
                ad = self.P.adts.get(n)
                if n in self.newtypes:
                    return self.eqv(fs[0], self.project(y, mk(".n")))
                vs = self.variants(n)
                if vs:
                    r = self.is_variant(y, vs, vn)
                    for i, f in enumerate(fs):
                        r = BDD.AND(r, self.eqv(f, mk("vf", y, vn, i)))
                    return r
        if a.op == "nf" and b.op == "nf":
            return self.eqv(a.a[0], b.a[0])
        for x, y in ((a, b), (b, a)):
            if x.op == "nf" and y.op == "c" and y.a[0] == 0 and self.nonempty(x.a[0]):
                return 0
        for x, y in ((a, b), (b, a)):
            if x.op == "len" and y.op == "c":
                return BDD.AND(self.longer(x, y.a[0] - 1), BDD.NOT(self.longer(x, y.a[0])))
        for x, y in ((a, b), (b, a)):
            if x.op == "sum" and y.op == "c" and y.a[0] == 0 and all(z.op == "len" or z.op == "c" and z.a[0] >= 0 for z in x.a):
                return BDD.AND(*[self.eqv(z, y) for z in x.a])
        if b.id < a.id:
            a, b = b, a
        return BDD.atom(mk("eq", a, b))

    def nonempty(self, t):
        """indices that are never the empty one: listed links (C13) and fresh indices (C01)"""
        if t.op == "fresh":
            return True
        if t.op == "field" and t.a[1] == 0 and t.a[0].op == "elem":
            src = t.a[0].a[0].a[0]
            return src.op == "prim" and src.a[0] == "iter_sources"
        return False

    def variants(self, n):
        if n == OPTION:
            return ((0, 0, "None"), (1, 1, "Some"))
        if n == RESULT:
            return ((0, 0, "Ok"), (1, 1, "Err"))
        ad = self.P.adts.get(n)
        if ad and ad["kind"] == "Enum":
            return tuple((i, i, v["n"]) for i, v in enumerate(ad["vs"]))
        return None

    def is_variant(self, v, vs, name):
        if v.op == "agg":
            return 1 if v.a[1] == name else 0
        if v.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.is_variant(x, vs, name)) for g, x in v.a[0]])
        if v.op == "bot":
            return 0
        if v.op == "entry":
            return 0 if False else self.entry_variant(v, name)
        while v.op == "updv":
            v = v.a[0]
        if v.op == "witness" and len(v.a) == 3 and isinstance(v.a[1], int):
            # an element found by a condition that settles the variant
            b = self.is_variant(v.a[2], vs, name)
            if BDD.implies(v.a[1], b):
                return 1
            if BDD.AND(v.a[1], b) == 0:
                return 0
        names = [x[2] for x in vs]
        if name not in names:
            return 0
        i = names.index(name)
        r = 1
        for j in range(i):
            r = BDD.AND(r, BDD.NOT(self.fact(mk("isv", v, names[j]))))
        if i < len(names) - 1:
            r = BDD.AND(r, self.fact(mk("isv", v, name)))
        return r

    def entry_variant(self, v, name):
        h = self.has(self.load(self.cur, v.a[0]), v.a[1])
        return h if name == "Occupied" else BDD.NOT(h)

    # ------------------------------------------------------------------ places
    def project(self, v, pj):
        o, p = v.op, pj.op
        if o == "entry":
            return v
        if o == "choice":
            return self.choice([(g, self.project(x, pj)) for g, x in v.a[0]])
        if o == "bot":
            return v
        if p == ".f":
            i = pj.a[0]
            if o == "agg":
                return v.a[2][i] if i < len(v.a[2]) else BOT()
            if o == "clos":
                return v.a[1][i]
            if o == "upd":
                return v.a[2] if v.a[1] == i else self.project(v.a[0], pj)
            return mk("field", v, i)
        if p == ".n":
            if o == "agg":
                return v.a[2][0]
            if o == "upd":
                return v.a[2]
            return mk("nf", v)
        if p == ".v":
            if o == "agg":
                if v.a[1] != pj.a[0]:
                    return BOT()
                return v.a[2][pj.a[1]]
            if o == "updv":
                if v.a[1] == pj.a[0] and v.a[2] == pj.a[1]:
                    return v.a[3]
                return self.project(v.a[0], pj)
            return mk("vf", v, pj.a[0], pj.a[1])
        if p == ".at":
            return self.mget(v, pj.a[0])
        raise Unsupported(p)

    def update(self, v, projs, val, st, op):
        """functional update of v at projs; op describes the inner change for collections"""
        if not projs:
            return val
        pj, rest = projs[0], projs[1:]
        if v.op == "choice":
            return self.choice([(g, self.update(x, projs, val, st, op)) for g, x in v.a[0]])
        inner = self.update(self.project(v, pj), rest, val, st, op)
        p, o = pj.op, v.op
        if p == ".f":
            i = pj.a[0]
            if o == "agg":
                fs = list(v.a[2])
                fs[i] = inner
                return agg(v.a[0], v.a[1], *fs)
            if o == "clos":
                fs = list(v.a[1])
                fs[i] = inner
                return mk("clos", v.a[0], tuple(fs), *v.a[2:])
            base = v
            if base.op == "upd" and base.a[1] == i:
                base = base.a[0]
            return mk("upd", base, i, inner)
        if p == ".n":
            if o == "agg":
                return agg(v.a[0], v.a[1], inner)
            return mk("upd", v.a[0] if v.op == "upd" else v, "n", inner)
        if p == ".v":
            if o == "agg":
                if v.a[1] != pj.a[0]:
                    return v
                fs = list(v.a[2])
                fs[pj.a[1]] = inner
                return agg(v.a[0], v.a[1], *fs)
            return mk("updv", v, pj.a[0], pj.a[1], inner)
        if p == ".at":
            if v.op == "agg" and v.a[0] == "[]" and pj.a[0].op == "c":
                fs = list(v.a[2])
                fs[pj.a[0].a[0]] = inner
                return agg(v.a[0], v.a[1], *fs)
            return self.bump(v, shape=False, contribs=None, ev=("set", pj.a[0], st.pc, inner))
        raise Unsupported(p)

    def place(self, root, projs=()):
        return mk("place", root, tuple(projs))

    def root_init(self, root):
        if root.op == "P":
            return mk("param", root.a[0])
        if root.op == "D":
            return root.a[0]
        return None

    def load(self, st, pl):
        root, projs = pl.a
        v = st.store.get(root)
        if v is None:
            v = self.root_init(root)
            if v is None:
                return mk("uninit", root)
        for pj in projs:
            v = self.project(v, pj)
        return v

    def path_of(self, st, pl):
        root, projs = pl.a
        v = st.store.get(root)
        if v is None:
            v = self.root_init(root)
        node = self.root_init(root)
        if v is None:
            v = mk("uninit", root)
        if v.op == "coll":
            node = v.a[0]
        for pj in projs:
            v = self.project(v, pj)
            if pj.op == ".at":
                node = mk("at", node if node is not None else mk("local"), pj.a[0])
            elif node is not None:
                node = self.project(node, pj) if node.op != "at" else mk("field", node, pj.a[0] if pj.a else 0) if pj.op != ".v" else mk("vf", node, *pj.a)
            if v.op == "coll" and not self.lazy_elem(v.a[0], node):
                node = v.a[0]
        if node is None:
            node = v.a[0] if v.op == "coll" else mk("local", root)
        return node

    def lazy_elem(self, t, node):
        """is t what was initially stored at node?"""
        return node is not None and node.op == "at" and t.op == "mget" and strip(t.a[0]) is strip(node.a[0]) and strip(t.a[1]) is strip(node.a[1])

    def visible(self, pl):
        return pl.a[0].op in ("P", "D") or any(p.op == ".at" for p in pl.a[1])

    def store(self, st, pl, val, span=None, log=True):
        root, projs = pl.a
        if log and self.visible(pl):
            self.event(st, "assign", self.path_of(st, pl), (self.canon(st, val),), span)
        if not projs:
            st.store[root] = val
            return
        v = st.store.get(root)
        if v is None:
            v = self.root_init(root) or mk("uninit", root)
        st.store[root] = self.update(v, projs, val, st, None)

    def canon(self, st, v, d=0):
        """replace references by the values they point to"""
        if d > 30:
            return v
        o = v.op
        if o == "ref":
            return self.canon(st, self.load(st, v.a[0]), d + 1)
        if o == "agg" and any(True for _ in v.a[2]):
            return agg(v.a[0], v.a[1], *[self.canon(st, x, d + 1) for x in v.a[2]])
        if o == "choice":
            return self.choice([(g, self.canon(st, x, d + 1)) for g, x in v.a[0]])
        return v

    def deref_places(self, st, v):
        """places a reference value may denote: list of (guard, place)"""
        v = self.simp(v, st)
        if v.op == "ref":
            return [(1, v.a[0])]
        if v.op == "choice":
            out = []
            for g, x in v.a[0]:
                for g2, p in self.deref_places(st, x):
                    out.append((BDD.AND(g, g2), p))
            return out
        if v.op == "bot":
            return []
        return [(1, self.place(mk("D", v)))]

    def eval_place(self, fr, pj, st):
        """-> list of (guard, place)"""
        cur = [(1, self.place(mk("L", fr.fid, pj["l"])))]
        ty = self.P.ty(fr.crate, fr.body.locals[pj["l"]] if fr.promoted is None else fr.promoted["locals"][pj["l"]])
        down = None
        for e in pj["p"]:
            k = e["k"]
            if k == "deref":
                if ty.get("n") == "alloc::boxed::Box":
                    ty = self.P.ty(fr.crate, ty["a"][0]) if ty.get("a") else {"k": "?"}
                    # Box values are transparent
                    nxt = []
                    for g, p in cur:
                        v = self.load(st, p)
                        if v.op == "ref":
                            nxt += [(BDD.AND(g, g2), p2) for g2, p2 in self.deref_places(st, v)]
                        else:
                            nxt.append((g, p))
                    cur = nxt
                    continue
                nxt = []
                for g, p in cur:
                    v = self.load(st, p)
                    # pointer into a transparent box: the value itself
                    if ty.get("k") == "ptr" and v.op != "ref":
                        nxt.append((g, p))
                        continue
                    for g2, p2 in self.deref_places(st, v):
                        gg = BDD.AND(g, g2)
                        if gg:
                            nxt.append((gg, p2))
                cur = nxt
                ty = self.P.ty(fr.crate, ty["t"]) if "t" in ty else {"k": "?"}
                continue
            if k == "downcast":
                down = e["n"]
                continue
            if k == "field":
                fty = self.P.ty(fr.crate, e["t"])
                pn = ty.get("n", "") if ty.get("k") == "adt" else ""
                if pn in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    ty = fty
                    continue
                if down is not None:
                    pr = mk(".v", down, e["i"])
                elif pn in self.newtypes:
                    pr = mk(".n")
                else:
                    pr = mk(".f", e["i"])
                down = None
                ty = fty
                cur = [(g, self.place(p.a[0], p.a[1] + (pr,))) for g, p in cur]
                continue
            if k == "index":
                key = self.load(st, self.place(mk("L", fr.fid, e["l"])))
                cur = [(g, self.place(p.a[0], p.a[1] + (mk(".at", key),))) for g, p in cur]
                ty = self.P.ty(fr.crate, ty["t"]) if "t" in ty else {"k": "?"}
                continue
            if k == "cindex":
                key = c(e["o"]) if not e["e"] else mk("fromend", e["o"])
                cur = [(g, self.place(p.a[0], p.a[1] + (mk(".at", key),))) for g, p in cur]
                ty = self.P.ty(fr.crate, ty["t"]) if "t" in ty else {"k": "?"}
                continue
            # subslice and the like
            cur = [(g, self.place(mk("D", mk("proj", k, self.load(st, p))))) for g, p in cur]
        return cur

    def load_alts(self, st, pls):
        if len(pls) == 1:
            return self.load(st, pls[0][1])
        return self.choice([(g, self.load(st, p)) for g, p in pls])

    def store_alts(self, st, pls, val, span=None):
        if len(pls) == 1:
            self.store(st, pls[0][1], val, span)
            return
        for g, p in pls:
            old = self.load(st, p)
            sub = st.copy()
            sub.pc = BDD.AND(st.pc, g)
            if sub.pc == 0:
                continue
            if self.visible(p):
                self.event(sub, "assign", self.path_of(st, p), (self.canon(st, val),), span)
            nv = self.choice([(g, val), (BDD.NOT(g), old)])
            self.store(st, p, nv, span, log=False)

    # ------------------------------------------------------------------ operands
    def const(self, fr, o, st):
        if "fn" in o:
            fn = o["fn"]
            t = mk("fnval", fn["d"], fn.get("r", {}).get("d", ""), tuple(fn.get("a", ())))
            self.fnvals[t] = (fr.crate, fn, fr.self_ty)
            return t
        ty = self.P.ty(fr.crate, o["t"])
        if "promoted" in o:
            b = self.P.bodies.get(o["pd"])
            root = mk("K", o["pd"], o["promoted"])
            if root not in st.store:
                v = None
                if b is not None and o["promoted"] < len(b.promoted):
                    pb = b.promoted[o["promoted"]]
                    body = mir.Body(b.crate, b.item, pb, b.foreign, [])
                    s2, v = self.run_function(body, [], st.copy(), fr.self_ty, promoted=pb)
                    if s2 is not None:
                        for k, x in s2.store.items():
                            if k.op == "K" or (k.op == "L" and k not in st.store):
                                st.store[k] = x
                if v is None:
                    v = mk("const", "promoted", o["pd"], o["promoted"])
                st.store[root] = v
            v = st.store[root]
            return v
        if "int" in o:
            if ty["s"] == "bool":
                return boolv(1 if o["int"] else 0)
            if ty["k"] == "adt":
                vs = self.variants(ty["n"])
                if vs:
                    for val, vi, vn in vs:
                        if val == o["int"] and not self.P.adts.get(ty["n"], {"vs": [{"f": []}] * 9})["vs"][vi]["f"]:
                            return agg(ty["n"], vn)
                return mk("const", ty["s"], o["int"])
            return c(o["int"])
        if "str" in o:
            return c("s:" + o["str"])
        if ty["k"] == "closure":
            return mk("clos", ty["d"], (), fr.self_ty or "")
        if ty["k"] == "tuple" and not ty["a"]:
            return UNIT()
        if "uneval" in o:
            return mk("const", o["uneval"])
        if ty["k"] == "adt" and "zst" in o:
            ad = self.P.adts.get(ty["n"])
            if ad and ad["kind"] == "Struct":
                return agg(ty["n"], ad["vs"][0]["n"])
            vs = self.variants(ty["n"])
        return mk("const", ty["s"])

    def operand(self, fr, o, st):
        k = o["k"]
        if k in ("copy", "move"):
            v = self.load_alts(st, self.eval_place(fr, o["p"], st))
            return self.simp(v, st)
        if k == "const":
            return self.const(fr, o, st)
        return boolv(0)   # runtime checks off

    def wide(self, fr, o):
        """is the operand a local of a 64 bit type?"""
        p = o.get("p")
        if not p or p.get("p"):
            return False
        return self.P.ty(fr.body.crate, fr.body.locals[p["l"]]).get("s") in ("usize", "u64", "isize", "i64")

    def rvalue(self, fr, r, st, span):
        k = r["k"]
        if k == "use":
            return self.operand(fr, r["o"], st)
        if k == "ref":
            pls = self.eval_place(fr, r["p"], st)
            return self.choice([(g, mk("ref", p)) for g, p in pls]) if pls else BOT()
        if k == "agg":
            fs = [self.operand(fr, x, st) for x in r["f"]]
            a = r["a"]
            if a == "tuple":
                return self.eta(agg("()", "", *fs))
            if a == "array":
                return agg("[]", "", *fs)
            if a == "adt":
                if r["n"] in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    return fs[0]
                return self.eta(agg(r["n"], r["vn"], *fs))
            if a == "closure":
                return mk("clos", r["d"], tuple(fs), fr.self_ty or "")
            return mk("aggother", *fs)
        if k == "discr":
            v = self.load_alts(st, self.eval_place(fr, r["p"], st))
            v = self.simp(v, st)
            return mk("discr", v, tuple(tuple(x) for x in r["vs"]))
        if k == "cast":
            v = self.operand(fr, r["o"], st)
            if r["c"].startswith("IntToInt"):
                if v.op in ("bool", "choice"):
                    return self.choice([(self.bdd(v), c(1)), (BDD.NOT(self.bdd(v)), c(0))]) if v.op == "bool" else v
                to = self.P.ty(fr.body.crate, r["t"]).get("s")
                # narrower than what counts and lengths are kept in
                if to in ("u8", "u16", "u32", "i8", "i16", "i32") and v.op in ("sum", "fetched", "len", "param", "field") and self.wide(fr, r["o"]):
                    return mk("trunc", to, v)
            return v
        if k == "bin":
            return self.binop(r["op"], self.operand(fr, r["l"], st), self.operand(fr, r["r"], st))
        if k == "un":
            v = self.operand(fr, r["o"], st)
            if r["op"] == "Not":
                if v.op in ("bool", "choice") or True:
                    return boolv(BDD.NOT(self.bdd(v)))
            if r["op"] == "PtrMetadata":
                v = self.canon(st, v)
                return self.length(v)
            return mk("un", r["op"], v)
        if k == "repeat":
            return mk("repeat", self.operand(fr, r["o"], st))
        if k == "tls":
            return mk("static", r["n"])
        return mk("rv", r.get("s", k))

    def eta(self, v):
        n, vn, fs = v.a
        if not fs:
            return v
        f0 = fs[0]
        if n in self.newtypes and f0.op == "nf":
            return f0.a[0]
        if f0.op == "field" and f0.a[1] == 0 and n not in self.newtypes:
            b = f0.a[0]
            ad = self.P.adts.get(n)
            full = n == "()" or (ad and ad["kind"] == "Struct")
            if full and all(f.op == "field" and f.a[0] is b and f.a[1] == i for i, f in enumerate(fs)):
                if n != "()" or len(fs) >= 2:
                    return b
        if f0.op == "vf" and f0.a[1] == vn and f0.a[2] == 0:
            b = f0.a[0]
            if all(f.op == "vf" and f.a[0] is b and f.a[1] == vn and f.a[2] == i for i, f in enumerate(fs)):
                ad = self.P.adts.get(n)
                if ad is not None and self.term_adt(b) == n:
                    return b
        return v

    def term_adt(self, t):
        return None

    def binop(self, op, a, b):
        if op.endswith("WithOverflow"):
            return tup(self.binop(op[:-12], a, b), boolv(0))
        op = op.replace("Unchecked", "")
        if op == "Eq":
            return boolv(self.eqv(a, b))
        if op == "Ne":
            return boolv(BDD.NOT(self.eqv(a, b)))
        if op in ("Lt", "Gt", "Le", "Ge"):
            if op == "Gt":
                return boolv(self.lt(b, a))
            if op == "Lt":
                return boolv(self.lt(a, b))
            if op == "Le":
                return boolv(BDD.NOT(self.lt(b, a)))
            return boolv(BDD.NOT(self.lt(a, b)))
        boolish = a.op == "bool" or b.op == "bool"
        if op in ("BitAnd", "BitOr", "BitXor") and boolish:
            x, y = self.bdd(a), self.bdd(b)
            return boolv({"BitAnd": BDD.AND(x, y), "BitOr": BDD.OR(x, y),
                          "BitXor": BDD.ite(x, BDD.NOT(y), y)}[op])
        if a.op == "c" and b.op == "c" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            if op == "Add":
                return c(x + y)
            if op == "Sub":
                return c(x - y)
            if op == "Mul":
                return c(x * y)
        if op in ("Add", "Mul"):
            if op == "Add":
                return self.addn(a, b)
            if b.id < a.id:
                a, b = b, a
        return mk("bin", op, a, b)

    def addn(self, a, b):
        parts, k = [], 0

        def go(x):
            nonlocal k
            if x.op == "sum":
                for y in x.a:
                    go(y)
            elif x.op == "c" and isinstance(x.a[0], int):
                k += x.a[0]
            else:
                parts.append(x)
        go(a)
        go(b)
        parts.sort(key=lambda t: t.id)
        if not parts:
            return c(k)
        if k:
            parts.append(c(k))
        if len(parts) == 1:
            return parts[0]
        return mk("sum", *parts)

    def longer(self, n, k):
        """the length n is more than k; written so that being longer than k implies being longer than less"""
        if not isinstance(k, int) or k < 0:
            return 1
        r = BDD.NOT(BDD.atom(mk("empty", n.a[0])))
        for i in range(1, min(k, 8) + 1):
            r = BDD.AND(r, BDD.atom(mk("lt", c(i), n)))
        return r if k <= 8 else BDD.AND(r, BDD.atom(mk("lt", c(k), n)))

    def lt(self, a, b):
        if a.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.lt(x, b)) for g, x in a.a[0]])
        if b.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.lt(a, x)) for g, x in b.a[0]])
        if a.op == "c" and b.op == "c":
            return 1 if a.a[0] < b.a[0] else 0
        if a.op == "c" and b.op == "len":
            return self.longer(b, a.a[0])
        if b.op == "c" and a.op == "len":
            return BDD.NOT(self.longer(a, b.a[0] - 1))
        if b.op == "c" and b.a[0] == 0:
            return 0
        if b.op == "c" and b.a[0] == 1:
            return self.eqv(a, c(0))
        if a.op == "c" and a.a[0] == 0:
            return BDD.NOT(self.eqv(b, c(0)))
        if a is b:
            return 0
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and not a.a[2] and not b.a[2]:
            vs = [v[2] for v in self.variants(a.a[0]) or ()]
            if a.a[1] in vs and b.a[1] in vs:
                return 1 if vs.index(a.a[1]) < vs.index(b.a[1]) else 0
        return BDD.atom(mk("lt", a, b))

    # ------------------------------------------------------------------ joins
    def joinval(self, alts, care):
        vs = {v for _, v in alts}
        if len(vs) == 1:
            return alts[0][1]
        ors = {}
        colls = [v for _, v in alts if v.op == "coll"]
        if colls:
            o = colls[0].a[0]
            if all((v.op == "coll" and v.a[0] is o) or v is o for v in vs):
                return self.join_coll([(g, self.as_coll(v)) for g, v in alts])
        v0 = alts[0][1]
        if v0.op == "agg" and all(v.op == "agg" and v.a[:2] == v0.a[:2] and len(v.a[2]) == len(v0.a[2]) for v in vs):
            return agg(v0.a[0], v0.a[1], *[
                self.joinval([(g, v.a[2][i]) for g, v in alts], care) for i in range(len(v0.a[2]))])
        if any(v.op in ("upd", "updv") for v in vs):
            r = self.join_upd(alts, care)
            if r is not None:
                return r
        if v0.op == "clos" and all(v.op == "clos" and v.a[0] == v0.a[0] for v in vs):
            return mk("clos", v0.a[0], tuple(self.joinval([(g, v.a[1][i]) for g, v in alts], care)
                                             for i in range(len(v0.a[1]))), *v0.a[2:])
        if all(v.op == "bool" for v in vs):
            r = BDD.OR(*[BDD.AND(g, v.a[0]) for g, v in alts])
            return boolv(BDD.restrict(r, care))
        return self.choice([(BDD.restrict(g, care), v) for g, v in alts])

    def join_upd(self, alts, care):
        """join of partially overwritten opaque values, field by field"""
        def base(v):
            while v.op in ("upd", "updv"):
                v = v.a[0]
            return v
        b = base(alts[0][1])
        if any(base(v) is not b for _, v in alts):
            return None
        keys = []
        for _, v in alts:
            while v.op in ("upd", "updv"):
                k = ("u", v.a[1]) if v.op == "upd" else ("v", v.a[1], v.a[2])
                if k not in keys:
                    keys.append(k)
                v = v.a[0]
        r = b
        for k in sorted(keys, key=str):
            pj = mk(".v", k[1], k[2]) if k[0] != "u" else mk(".n") if k[1] == "n" else mk(".f", k[1])
            jv = self.joinval([(g, self.project(v, pj)) for g, v in alts], care)
            r = mk("upd", r, k[1], jv) if k[0] == "u" else mk("updv", r, k[1], k[2], jv)
        return r

    def join_coll(self, alts):
        o = alts[0][1].a[0]
        cs = [v.a[3] for _, v in alts]
        if all(x is not None for x in cs):
            n = 0
            while all(len(x) > n for x in cs) and all(x[n] is cs[0][n] for x in cs):
                n += 1
            con = list(cs[0][:n])
            for x in cs:
                for y in x[n:]:
                    if y not in con[n:]:
                        con.append(y)
            con = tuple(con)
        else:
            con = None
        shapes = {v.a[1] for _, v in alts}
        s = self.nseq()
        sh = shapes.pop() if len(shapes) == 1 else s
        if sh == s:
            self.shape_ev[s] = (("join", alts), None)
        self.content_ev[s] = (("join", alts), None)
        return mk("coll", o, sh, s, con)

    def join(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        pc = BDD.OR(*[s.pc for s in sts])
        r = State(self.ways_out.get(pc, pc), BDD.AND(*[s.assume for s in sts]), {}, sts[0].loops)
        roots = {}
        for s in sts:
            for k in s.store:
                roots[k] = None
        for k in roots:
            alts = [(s.pc, s.store[k]) for s in sts if k in s.store]
            if len(alts) == 1 and k.op in ("P", "D"):
                ini = self.root_init(k)
                alts += [(s.pc, ini) for s in sts if k not in s.store]
            r.store[k] = self.joinval(alts, pc) if len(alts) > 1 else alts[0][1]
        return r

    # ------------------------------------------------------------------ functions
    def run_function(self, body, args, st, self_ty=None, promoted=None):
        """-> (state, value) or (None, None) when it never returns"""
        if len(self.stack) > self.max_depth:
            raise Unsupported("inlining too deep: " + body.name)
        fid = self.nuid()
        fr = Frame(body, fid, self_ty, promoted)
        self.fn_seen.add(body.key)
        for i, a in enumerate(args):
            st.store[mk("L", fid, i + 1)] = a
        self.stack.append(body.name)
        self.keystack.append(body.key)
        try:
            back, exits = self.run_region(fr, 0, st, None, None, None)
        finally:
            self.stack.pop()
            self.keystack.pop()
        rets = exits.get("ret", [])
        s = self.join(rets)
        if s is None:
            return None, None
        v = s.store.get(mk("L", fid, 0), UNIT())
        if promoted is None:
            for k in [k for k in s.store if k.op == "L" and k.a[0] == fid]:
                # keep locals a returned reference still points to (promoted temporaries)
                del s.store[k]
        return s, v

    def run_region(self, fr, entry, st, region, header, driver):
        """acyclic pass over a region; returns (joined back-edge state, exits {target: [states]})"""
        cfg = fr.body.cfg
        pending = {entry: [st]}
        back, exits = [], {}

        def edge(target, s):
            if s is None or s.pc == 0:
                return
            if target == header:
                back.append(s)
            elif region is not None and target not in region and target in cfg.returns:
                exits.setdefault(target, []).append(s)
            else:
                pending.setdefault(target, []).append(s)
        first = True
        while pending:
            # paths that can only panic are read at once, so that their events keep their place
            b = min(pending, key=lambda x: (x in cfg.returns, cfg.idx.get(x, 1 << 30)))
            s = self.join(pending.pop(b))
            if s is None:
                continue
            if b in cfg.loops and not (b == header and first):
                for tgt, ss in self.run_cfg_loop(fr, b, s).items():
                    for x in ss:
                        if tgt == "ret":
                            exits.setdefault("ret", []).append(x)
                        else:
                            edge(tgt, x)
                continue
            first = False
            self.run_block(fr, b, s, edge, exits, driver)
        return self.join(back), exits

    def run_block(self, fr, b, st, edge, exits, driver):
        blk = fr.body.blocks[b]
        cfg = fr.body.cfg
        for s in blk["st"]:
            if "setdiscr" in s:
                continue
            v = self.rvalue(fr, s["r"], st, s.get("s"))
            self.store_alts(st, self.eval_place(fr, s["p"], st), v, s.get("s"))
        t = blk["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            edge(t["t"], st)
        elif k == "return":
            exits.setdefault("ret", []).append(st)
        elif k == "switch":
            self.do_switch(fr, t, st, edge)
        elif k == "assert":
            cond = self.bdd(self.operand(fr, t["c"], st))
            if not t["e"]:
                cond = BDD.NOT(cond)
            bad = BDD.AND(st.pc, BDD.NOT(cond))
            if bad and BDD.AND(bad, st.assume):
                s2 = st.copy()
                s2.pc = bad
                self.event(s2, "panic", None, (c("s:assert " + t["m"]),), t["s"])
                st.assume = BDD.AND(st.assume, BDD.OR(BDD.NOT(st.pc), cond))
            edge(t["t"], st)
        elif k == "call":
            self.calls_seen += 1
            if driver is not None and driver[0] == b:
                self.store_alts(st, self.eval_place(fr, t["d"], st), driver[1], t["s"])
                edge(t["t"], st)
                return
            args = [self.operand(fr, x, st) for x in t["a"]]
            st2, v = self.call(fr, t, args, st)
            if st2 is None or t["t"] is None:
                return
            self.store_alts(st2, self.eval_place(fr, t["d"], st2), v, t["s"])
            edge(t["t"], st2)

    def do_switch(self, fr, t, st, edge):
        self.cur = st
        v = self.operand(fr, t["d"], st)
        conds = []
        rest = 1
        k = BDD.AND(st.pc, st.assume)
        for val, tgt in t["ts"]:
            cnd = self.switch_cond(v, val)
            cnd = BDD.AND(rest, cnd)
            rest = BDD.AND(rest, BDD.NOT(cnd))
            conds.append((cnd, tgt))
        conds.append((rest, t["o"]))
        cfg = fr.body.cfg
        m = {}
        for cnd, tgt in conds:
            if tgt in cfg.dead:
                continue
            if BDD.AND(cnd, k) == 0:
                continue
            m[tgt] = BDD.OR(m.get(tgt, 0), cnd)
        live = {x: g for x, g in m.items() if x in cfg.returns}
        if not live:
            for tgt, g in m.items():
                s = st.copy()
                s.pc = BDD.AND(st.pc, g)
                edge(tgt, s)
            return
        C = BDD.OR(*live.values())
        for tgt, g in m.items():
            if tgt in live:
                continue
            s = st.copy()
            s.pc = BDD.AND(st.pc, g)
            edge(tgt, s)
        na = st.assume
        if len(live) < len(m):
            na = BDD.AND(st.assume, BDD.OR(BDD.NOT(st.pc), C))
        kk = BDD.AND(st.pc, na)
        many = len(live) > 1
        for tgt, g in live.items():
            s = st.copy() if many else st
            s.assume = na
            if many:
                s.pc = BDD.AND(st.pc, BDD.restrict(g, kk))
            edge(tgt, s)

    def switch_cond(self, v, val):
        if v.op == "choice":
            return BDD.OR(*[BDD.AND(g, self.switch_cond(x, val)) for g, x in v.a[0]])
        if v.op == "bool":
            return v.a[0] if val else BDD.NOT(v.a[0])
        if v.op == "discr":
            for dv, vi, vn in v.a[1]:
                if dv == val:
                    return self.is_variant(v.a[0], v.a[1], vn)
            return 0
        if v.op == "c":
            return 1 if v.a[0] == val else 0
        if v.op == "bot":
            return 0
        if val in (0, 1) and v.op in ("prim", "field") and False:
            return 0
        return self.eqv(v, c(val))

    # ------------------------------------------------------------------ loops
    def find_driver(self, fr, h, region):
        """block of the Iterator::next call executed in every round whose None leaves the loop"""
        cfg = fr.body.cfg
        b = h
        seen = set()
        while b not in seen and b in region:
            seen.add(b)
            t = fr.body.blocks[b]["t"]
            if t["k"] == "call":
                fn = t["f"].get("fn")
                if fn and (fn.get("m") == "next") and (fn.get("trait") or "").endswith("iterator::Iterator"):
                    return b
                if fn and fn.get("m") in ("pop", "pop_front", "pop_back", "pop_first", "pop_last") and not fn.get("trait"):
                    return b
                if t["t"] is None:
                    return None
                b = t["t"]
            elif t["k"] in ("goto", "drop"):
                b = t["t"]
            else:
                return None
        return None

    def run_cfg_loop(self, fr, h, st):
        cfg = fr.body.cfg
        region = cfg.loops[h]
        d = self.find_driver(fr, h, region)
        if d is not None and fr.body.blocks[d]["t"]["f"]["fn"]["m"] != "next":
            r = self.run_drain(fr, h, region, d, st)
            if r is not None:
                return r
        elif d is not None:
            # iterator value at loop entry: run the straight line up to the next() call
            s0 = st.copy()
            it = self.driver_iter(fr, h, d, s0)
            if it is not None:
                itv, itplace = it
                if not self.M.opaque_iter_param(itv, itplace):
                    return self.run_for(fr, h, region, d, st, itv, itplace)
        return self.run_while(fr, h, region, st)

    def run_drain(self, fr, h, region, d, st):
        """while let Some(x) = v.pop(): a loop over what v holds, provided the body leaves v alone"""
        it = self.driver_iter(fr, h, d, st.copy())
        if it is None:
            return None
        v, pl = it
        t = fr.body.blocks[d]["t"]
        m = t["f"]["fn"]["m"]
        cl = self.M.coll_class(t["f"]["fn"])
        if cl not in ("seq", "set", "map"):
            return None
        span = t.get("s")
        flag = []

        def attempt(s0):
            self.M.clear(s0, mk("ref", pl), span)
            itv = self.M.it("src", cl, v, "val", None)
            if m in ("pop", "pop_back", "pop_last"):
                itv = self.M.it("rev", itv)

            def body(s, elem):
                a = self.load(s, pl)
                back, exits = self.run_region(fr, h, s, region, h, (d, some(elem)))
                if exits or back is None or self.load(back, pl) is not a:
                    flag.append(1)
                return back, [(tgt, x) for tgt, ss in exits.items() for x in ss]
            s, early = self.M.consume(itv, s0, body)
            res = {}
            if s is not None:
                a = self.load(s, pl)
                back, exits = self.run_region(fr, h, s, region, h, (d, none()))
                if back is not None:
                    flag.append(1)
                for tgt, ss in exits.items():
                    res.setdefault(tgt, []).extend(ss)
            return res
        self.dry += 1
        try:
            r = attempt(st.copy())
        finally:
            self.dry -= 1
        if flag or not r:
            return None
        return attempt(st)

    def driver_iter(self, fr, h, d, st):
        b = h
        self.dry += 1
        try:
            for _ in range(50):
                blk = fr.body.blocks[b]
                for s in blk["st"]:
                    if "setdiscr" in s:
                        continue
                    v = self.rvalue(fr, s["r"], st, s.get("s"))
                    self.store_alts(st, self.eval_place(fr, s["p"], st), v)
                if b == d:
                    arg = self.operand(fr, blk["t"]["a"][0], st)
                    pls = self.deref_places(st, arg)
                    if len(pls) != 1:
                        return None
                    return self.load(st, pls[0][1]), pls[0][1]
                t = blk["t"]
                if t["k"] == "call":
                    args = [self.operand(fr, x, st) for x in t["a"]]
                    st, v = self.call(fr, t, args, st)
                    if st is None:
                        return None
                    self.store_alts(st, self.eval_place(fr, t["d"], st), v)
                b = t["t"]
        finally:
            self.dry -= 1
        return None

    def run_for(self, fr, h, region, d, st, itv, itplace):
        """loop driven by an iterator: the body is read once per kind of element"""
        def body(s, elem):
            back, exits = self.run_region(fr, h, s, region, h, (d, some(elem)))
            return back, [(tgt, x) for tgt, ss in exits.items() for x in ss]
        s, early = self.M.consume(itv, st, body)
        res = {}
        if s is not None:
            # the exit taken when the iterator is exhausted
            back, exits = self.run_region(fr, h, s, region, h, (d, none()))
            for tgt, ss in exits.items():
                res.setdefault(tgt, []).extend(ss)
        for tgt, x in early:
            res.setdefault(tgt, []).append(x)
        return res

    def run_while(self, fr, h, region, st):
        uid = self.nuid()
        lt = mk("loop", mk("while", uid), 0)
        self.loop_info[uid] = {"kind": "while", "fn": fr.body.name, "phis": {}, "loop": lt, "start": self.seq}
        res = {}
        holder = {}

        def body(s):
            back, exits = self.run_region(fr, h, s, region, h, None)
            holder["exits"] = exits
            return back, []
        self.loop_fix(st, lt, uid, body)
        exits = holder.get("exits", {})
        flat = [(t, x) for t, ss in exits.items() for x in ss]
        if len(flat) > 1:
            # several ways out of one loop to the same place
            pass
        facts = []
        ends = BDD.OR(*[BDD.restrict(x.pc, st.pc) for _, x in flat])
        if len(flat) > 1:
            # one of the ways out is taken in the end
            self.ways_out[BDD.OR(*[x.pc for _, x in flat])] = st.pc
        for tgt, x in flat:
            fact = BDD.restrict(x.pc, st.pc)
            x.loops = st.loops
            if len(flat) == 1:
                x.assume = BDD.AND(st.assume, BDD.OR(BDD.NOT(st.pc), fact))
                x.pc = st.pc
            else:
                x.assume = BDD.AND(st.assume, BDD.OR(BDD.NOT(st.pc), ends))
            facts.append(fact)
            res.setdefault(tgt, []).append(x)
        if not self.dry:
            self.loop_info[uid]["exit"] = BDD.OR(*facts) if facts else 0
        return res

    def diff(self, a, b, out, root, path=()):
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]) and a.a[0] != "[]":
            ad = self.P.adts.get(a.a[0])
            enumv = self.variants(a.a[0]) is not None
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                pj = mk(".v", a.a[1], i) if enumv else (mk(".n") if a.a[0] in self.newtypes else mk(".f", i))
                self.diff(x, y, out, root, path + (pj,))
            return
        if a.op == "clos" and b.op == "clos" and a.a[0] == b.a[0]:
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                self.diff(x, y, out, root, path + (mk(".f", i),))
            return
        if a.op in ("upd", "updv") or b.op in ("upd", "updv"):
            def base(v):
                while v.op in ("upd", "updv"):
                    v = v.a[0]
                return v
            if base(a) is base(b):
                keys = []
                for v in (a, b):
                    while v.op in ("upd", "updv"):
                        k = mk(".v", v.a[1], v.a[2]) if v.op != "upd" else mk(".n") if v.a[1] == "n" else mk(".f", v.a[1])
                        if k not in keys:
                            keys.append(k)
                        v = v.a[0]
                for k in keys:
                    self.diff(self.project(a, k), self.project(b, k), out, root, path + (k,))
                return
        out.setdefault((root, path), (a, b))

    def loop_fix(self, st, lt, uid, fn):
        """read a loop body with everything it changes replaced by unknown round values.
        Returns the state after the loop (None if the body never completes a round)."""
        changed = {}
        back = None

        def start():
            s = st.copy()
            s.loops = st.loops + ((lt, uid),)
            for (root, path), kind in changed.items():
                pl = self.place(root, path)
                old = self.load(st, pl)
                if old.op == "coll" or kind[0] == "coll":
                    oc = self.as_coll(old)
                    q = self.nseq()
                    nv = mk("coll", oc.a[0], q if kind[1] else oc.a[1], q, oc.a[3])
                elif old.op == "bool":
                    nv = boolv(BDD.atom(mk("phi", uid, pl)))
                else:
                    nv = mk("phi", uid, pl)
                v = s.store.get(root)
                if v is None:
                    v = self.root_init(root)
                s.store[root] = self.update(v, path, nv, s, None) if path else nv
            return s
        for _ in range(12):
            s = start()
            snap = dict(s.store)
            self.dry += 1
            try:
                back, exits = fn(s)
            finally:
                self.dry -= 1
            out = {}
            if back is not None:
                for k, v in snap.items():
                    b = back.store.get(k)
                    if b is not None and b is not v:
                        self.diff(v, b, out, k)
            new = {}
            for key, (a, b) in out.items():
                iscoll = (a.op == "coll" or b.op == "coll") and (
                    self.as_coll(a).a[0] is self.as_coll(b).a[0])
                shape = iscoll and self.as_coll(a).a[1] != self.as_coll(b).a[1]
                kind = ("coll", shape) if iscoll else ("val", False)
                old = changed.get(key)
                if old is None:
                    # a change below or above an already known one
                    new[key] = kind
                elif old != kind and kind[0] == "coll" and kind[1] and not old[1]:
                    new[key] = kind
                elif old[0] == "coll" and kind[0] == "val":
                    new[key] = kind
            if not new:
                break
            changed.update(new)
            for (r, p) in list(changed):
                for (r2, p2) in list(changed):
                    if r is r2 and p != p2 and p2[:len(p)] == p and (r2, p2) in changed:
                        del changed[(r2, p2)]
        s = start()
        back, exits = fn(s)
        after = st.copy()
        info = self.loop_info.setdefault(uid, {"kind": "for", "phis": {}})
        info["loop"] = lt
        for (root, path), kind in changed.items():
            pl = self.place(root, path)
            init = self.load(st, pl)
            if back is None:
                continue
            step = self.load(back, pl)
            if not self.dry:
                info["phis"][pl] = (init, step)
            if kind[0] == "coll":
                bc = self.as_coll(step)
                q = self.nseq()
                nv = mk("coll", bc.a[0], q if kind[1] else bc.a[1], q, bc.a[3])
            elif init.op == "bool" and step.op == "bool":
                pa = mk("phi", uid, pl)
                f0 = BDD.cof(step.a[0], {pa: False})
                f1 = BDD.cof(step.a[0], {pa: True})
                if f1 == 1:
                    nv = boolv(BDD.OR(init.a[0], self.exists((lt,), BDD.restrict(f0, st.pc))))
                elif f0 == 0:
                    nv = boolv(BDD.AND(init.a[0], BDD.NOT(self.exists((lt,), BDD.NOT(BDD.restrict(f1, st.pc))))))
                else:
                    nv = boolv(BDD.atom(mk("loopval", lt, init, step)))
            else:
                nv = mk("loopval", lt, init, step)
            v = after.store.get(root)
            if v is None:
                v = self.root_init(root)
            after.store[root] = self.update(v, path, nv, after, None) if path else nv
        if back is not None:
            for k, v in back.store.items():
                if k not in after.store and k.op in ("D", "K"):
                    after.store[k] = v
        return after, back, exits

    def foreach(self, st, src, fn, mkelem, rev=False):
        """generic loop over the symbolic source src"""
        n = sum(1 for l, _ in st.loops if l.a[0] is src)
        lt = mk("loop", src, n)
        uid = self.nuid()
        self.loop_info[uid] = {"kind": "for", "phis": {}, "loop": lt, "rev": rev}
        elem = mkelem(lt)
        after, back, exits = self.loop_fix(st, lt, uid, lambda s: fn(s, elem))
        # early exits of this loop
        neg = 1
        conds = []
        for tgt, x in exits:
            cond = BDD.restrict(x.pc, st.pc)
            extra = x.loops[len(st.loops):]
            g = self.exists((lt,), cond)
            conds.append((tgt, cond))
            x.pc = BDD.AND(st.pc, neg, g)
            x.assume = st.assume
            x.loops = st.loops
            neg = BDD.AND(neg, BDD.NOT(g))
        if not self.dry:
            self.loop_info[uid]["exits"] = conds
        if back is None and not exits:
            # the body always panics: only the empty source gets past
            pass
        after.pc = BDD.AND(st.pc, neg)
        after.assume = st.assume
        after.loops = st.loops
        return after, exits

    # ------------------------------------------------------------------ calls
    def call(self, fr, t, args, st):
        f = t["f"]
        if f.get("fn"):
            return self.dispatch(fr, f["fn"], args, st, t)
        v = self.operand(fr, f, st)
        return self.call_value(st, v, args, t.get("s"))

    def call_value(self, st, f, args, span=None, muts=None):
        """call a function value with an argument list"""
        f = self.simp(f, st)
        while f.op == "ref":
            f2 = self.load(st, f.a[0])
            if f2.op == "clos":
                return self.call_closure(st, f2, f, args)
            f = self.simp(f2, st)
        if f.op == "choice":
            outs = []
            for g, x in f.a[0]:
                s = st.copy()
                s.pc = BDD.AND(st.pc, g)
                if s.pc == 0:
                    continue
                s2, v = self.call_value(s, x, args, span, muts)
                if s2 is not None:
                    outs.append((s2, v))
            if not outs:
                return None, None
            v = self.joinval([(s.pc, v) for s, v in outs], BDD.OR(*[s.pc for s, _ in outs])) if len(outs) > 1 else outs[0][1]
            return self.join([s for s, _ in outs]), v
        if f.op == "clos":
            return self.call_closure(st, f, None, args)
        if f.op == "fnval":
            crate, fn, sty = self.fnvals[f]
            fake = type("F", (), {})()
            fake.crate, fake.self_ty, fake.body, fake.promoted, fake.fid = crate, sty, None, None, -1
            return self.dispatch(fake, fn, args, st, {"s": span, "at": None, "t": 0})
        return self.opaque_call(st, f, args, span, muts)

    def call_closure(self, st, clos, ref, args):
        body = self.P.bodies.get(clos.a[0])
        if body is None:
            return self.opaque_call(st, clos, args, None)
        lt = self.P.ty(body.crate, body.locals[1])
        if lt["k"] == "ref":
            if ref is None:
                root = mk("L", self.nuid(), 0)
                st.store[root] = clos
                a0 = mk("ref", self.place(root))
            else:
                a0 = ref
        else:
            a0 = clos
        return self.run_function(body, [a0] + list(args), st, clos.a[2] or None)

    def opaque_call(self, st, f, args, span, muts=None):
        """call of an unknown function value (a user callback): may change what it gets by &mut"""
        vals = [self.canon(st, a) for a in args]
        path = None
        s = self.event(st, "callfn", None, (f,) + tuple(vals), span)
        for i, a in enumerate(args):
            if muts is not None and not muts[i]:
                continue
            for g, p in (self.deref_places(st, a) if a.op in ("ref", "choice") else []):
                if p.a[0].op == "D":
                    continue
                old = self.load(st, p)
                if old.op == "coll":
                    old = self.srckey(old)
                new = mk("called", f, old)
                if self.visible(p):
                    self.event(st, "changed", self.path_of(st, p), (new,), span, old=old)
                self.store(st, p, new, span, log=False)
        r = mk("apply", f, *vals)
        return st, r

    def dispatch(self, fr, fn, args, st, t):
        return self.M.dispatch(fr, fn, args, st, t)


def strip(t, _memo={}):
    """forget which version of a collection a term refers to"""
    r = _memo.get(t)
    if r is not None:
        return r

    def f(x):
        if x.op == "ver":
            return x.a[0]
        if x.op == "coll":
            return x.a[0]
        return x
    r = rewrite(t, f)(t)
    _memo[t] = r
    return r

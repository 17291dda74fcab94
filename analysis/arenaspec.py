"""Rules over the generated node store (arena) and its iterators: C16, C17, and the store's part of C01 and C04.

For one index the store is in one of finitely many states: unknown, allocated for type V, or holding a
node of type V.  Every store operation is read with symbolic contents and its effect in each of these
states is compared with the meaning of the operation: what is found under the index afterwards, in which
category, what is returned, whether it is rejected, and that every other index is left alone."""
from term import mk, BDD, show, T, rewrite
import models
import engine
from engine import agg, c, strip, tup
from spec import Run, implies, normg, opaque_terms, show_cube, batom, rel, graph_roles, path_term
import genspec as W

IX = mk("param", "i")
KEY = mk("nf", IX)


class Store:
    """the generated store of one node enum"""

    def __init__(self, G, e):
        self.G, self.e = G, e
        self.P = G.P
        a = G.assoc("NodeEnum", e.name, "GenArena")
        self.adt = a
        self.name = a.split("::")[-1] if a else None
        self.D = G.assoc("NodeEnum", e.name, "Discriminant")
        self.N = "witness::" + e.name
        self.vs = [v for v, _ in e.vs]
        self.disp = self.dist = None
        self.cont = {}
        ad = self.P.adts.get(a) if a else None
        if ad and ad["kind"] == "Struct":
            for i, f in enumerate(ad["vs"][0]["f"]):
                ty = self.P.ty(ad["crate"], f["t"])
                if ty["k"] == "adt" and ty["n"].split("::")[-1] == "IdDistributer":
                    self.dist = i
                elif models.ty_class(ty) == "map" and "Discriminant" in ty["s"].split(",")[-1] and "NodeIndex" in ty["s"]:
                    self.disp = i

    def run(self, m, names, values=None, st=None, extra=None, trait="CateArena"):
        """read an operation, in state st of index i if one is given; extra: type of the result of a callback"""
        if st is None and extra is None:
            return self.G.run(self.name, m, names, trait, values)
        a = self.assign(st) if st else {}

        def facts(t):
            b = a.get(t)
            if b is None and t.op == "isv" and extra and result_like(t.a[0]):
                return t.a[1] == extra
            return b
        return self.G.run(self.name, m, names, trait, values, facts, (st, extra))

    def where(self, m, case=""):
        return f"generated {m} of {self.name}" + (f", {case}" if case else "")

    def field(self, i, base=None):
        return mk("field", base or mk("param", "self"), i)

    def item(self, v, x="x"):
        return agg(self.N, v, mk("param", x))

    def d(self, v):
        return agg(self.D, v)

    # ---- roles of the containers, read off get_container
    def roles(self, rep, rule):
        w = self.where("get_container")
        if self.name is None or self.disp is None:
            rep.und(rule, w, "the layout of the store is not understood")
            return False
        for v in self.vs:
            r = self.run("get_container", ["self", "d"], {"d": self.d(v)})
            if not W.usable(rep, rule, w, r) or r.st is None:
                return False
            x = r.retval()
            if x.op != "field" or x.a[0] is not mk("param", "self"):
                rep.und(rule, w, f"the container of {v} is {show(x)}")
                return False
            self.cont[v] = x.a[1]
        if len(set(self.cont.values())) < len(self.vs):
            rep.bad(rule, w, "two categories share one container: " + ", ".join(f"{v} -> field {i}" for v, i in self.cont.items()))
            return False
        rep.ok(rule, w)
        for v in self.vs:
            w = self.where("get_container_mut", v)
            r = self.run("get_container_mut", ["self", "d"], {"d": self.d(v)})
            if not W.usable(rep, rule, w, r) or r.st is None:
                continue
            x = r.ret
            if x.op == "ref":
                want = r.I.place(mk("P", "self"), (mk(".f", self.cont[v]),))
                rep.check(x.a[0] is want, rule, w, f"hands out {show(r.retval())}, but nodes of {v} are looked up in {show(self.field(self.cont[v]))}")
            else:
                rep.und(rule, w, show(x))
        return True

    # ---- states of one index
    def states(self):
        return [("unknown", None)] + [("allocated", v) for v in self.vs] + [("holds", v) for v in self.vs]

    def assign(self, st, key=IX, kn=KEY, base=None):
        """the facts about index `key` in state st (consistent store)"""
        kind, v = st
        D = self.field(self.disp, base)
        a = {mk("has", D, key): kind != "unknown"}
        for w in self.vs:
            if kind != "unknown":
                a[mk("isv", mk("mget", D, key), w)] = w == v
            C = self.field(self.cont[w], base)
            a[mk("has", C, kn)] = kind == "holds" and w == v
            for x in self.vs:
                a[mk("isv", mk("mget", C, kn), x)] = w == x
        return a


def result_like(t):
    return t.op in ("apply", "called") or (t.op == "field" and t.a[1] == 1 and t.a[0].op == "elem")


class Case:
    """evaluation of guards and values under an assignment of atoms"""

    def __init__(self, I, assign):
        self.I, self.m = I, assign
        self.memo = {}
        self.vals = {}
        self.go = rewrite(None, self._fn, self.memo)

    def _fn(self, t):
        if t in self.vals:
            return self.vals[t]
        if t.op == "choice":
            alts = [(g, v) for g, v in t.a[0] if g != 0]
            for g, v in alts:
                if g == 1:
                    return v
            if len(alts) == 1 and len(t.a[0]) > 1 and False:
                return alts[0][1]
            return mk("choice", tuple(alts)) if alts else mk("bot")
        if t.op in ("has", "isv", "eq", "empty"):
            b = self.m.get(t)
            if b is None and t.op == "eq":
                b = self.m.get(mk("eq", t.a[1], t.a[0]))
            if b is not None:
                return mk("bool", 1 if b else 0)
            if t.op == "isv" and t.a[0].op in ("agg", "choice"):
                n = t.a[0].a[0] if t.a[0].op == "agg" else None
                if n:
                    return mk("bool", 1 if t.a[0].a[1] == t.a[1] else 0)
            if t.op == "eq":
                return mk("bool", self.I.eqv(*t.a)) if self.I.eqv(*t.a) in (0, 1) else t
        return t

    def term(self, t):
        return self.go(t)

    def guard(self, g):
        return self.go.bdd(g)


def view(I, v, k, fuel=30):
    """what a map holds under key k: [(guard, value or None)], None if unknown"""
    if v.op == "choice":
        out = []
        for g, x in v.a[0]:
            y = view(I, x, k, fuel)
            if y is None:
                return None
            out += [(BDD.AND(g, g2), z) for g2, z in y]
        return out
    if v.op != "coll" or not v.a[2]:
        o = v.a[0] if v.op == "coll" else v
        if v.op == "coll" and o.op == "new":
            return [(1, None)] if v.a[3] == () else None
        h = BDD.atom(mk("has", o, k))
        return [(h, mk("mget", o, k)), (BDD.NOT(h), None)]
    if not fuel:
        return None
    ev, prev = I.content_ev.get(v.a[2], (None, None))
    if ev is None:
        return None
    if ev[0] == "join":
        out = []
        for g, x in ev[1]:
            y = view(I, x, k, fuel - 1)
            if y is None:
                return None
            out += [(BDD.AND(g, g2), z) for g2, z in y]
        return out
    if ev[0] in ("ins", "set", "rem", "clear", "append"):
        old = view(I, prev, k, fuel - 1)
        if old is None:
            return None
        if ev[0] == "append":
            new = view(I, ev[1], k, fuel - 1)
            if new is None:
                return None
            out = [(BDD.AND(ev[2], g), z) for g, z in new if z is not None]
            hit = BDD.OR(*[g for g, _ in out]) if out else 0
            return out + [(BDD.AND(BDD.NOT(hit), g), z) for g, z in old]
        g = ev[2] if ev[0] == "clear" else BDD.AND(ev[2], I.eqv(ev[1], k))
        val = None
        if ev[0] in ("ins", "set"):
            if len(ev) < 4:
                return None
            val = ev[3]
        rest = [(BDD.AND(BDD.NOT(g), g2), z) for g2, z in old]
        if ev[0] == "set":
            # overwriting the content of an entry that is there
            return [(BDD.AND(g, g2), val if z is not None else None) for g2, z in old] + rest
        return [(g, val)] + rest
    return None


def resolve(case, alts):
    """the one alternative that applies, or ("?", text)"""
    out = []
    for g, z in alts:
        g = case.guard(g)
        if g == 0:
            continue
        out.append((g, case.term(z) if z is not None else None))
    if not out:
        return ("?", "no alternative")
    if all(z is out[0][1] for _, z in out):
        return out[0][1]
    for g, z in out:
        if g == 1:
            return z
    return ("?", "; ".join(f"{BDD.show(g)} -> {show(z) if z is not None else 'nothing'}" for g, z in out)[:300])


def unclear(x):
    return isinstance(x, tuple) and x and x[0] == "?"


def txt(x):
    return "nothing" if x is None else (x[1] if unclear(x) else show(x))


class Op:
    """one operation in one state"""

    def __init__(self, rep, S, rule, m, run, st, extra=None, key=IX, kn=KEY):
        self.rep, self.S, self.rule, self.run, self.st = rep, S, rule, run, st
        self.w = S.where(m, f"index {st[0]}" + (f" {st[1]}" if st[1] else "") if st else "")
        a = dict(S.assign(st, key, kn)) if st else {}
        a.update(extra or {})
        self.case = Case(run.I, a)
        if st and st[1]:
            self.case.vals[mk("mget", S.field(S.disp), key)] = S.d(st[1])
        self.key, self.kn = key, kn
        self.bad = False

    def fail(self, msg, opaque=False):
        if self.bad:
            return
        self.bad = True
        if opaque or self.run.I.unknown:
            self.rep.und(self.rule, self.w, msg)
        else:
            self.rep.bad(self.rule, self.w, msg)

    def done(self):
        if not self.bad:
            self.rep.ok(self.rule, self.w)

    def panics(self):
        return self.case.guard(W.panics(self.run))

    def must_panic(self, why):
        g = self.panics()
        if g == 1 or self.run.st is None:
            return
        r = implies(1, g)[0]
        if r is not True:
            self.fail(f"{why}, but it is not rejected", opaque_terms(g) or g != 0)

    def may_not_panic(self):
        g = self.panics()
        if g == 0 and self.run.st is not None:
            return True
        self.fail(f"panics" + ("" if g == 1 else f" when {BDD.show(g)[:200]}"), self.run.st is not None and (opaque_terms(g) or implies(g, 0)[0] is not False))
        return False

    def fin(self, i):
        F = W.final(self.run)
        return self.run.I.project(F, mk(".f", i))

    def expect_dispatch(self, want, key=None):
        a = view(self.run.I, self.fin(self.S.disp), key or self.key)
        if a is None:
            self.fail("the recorded types after it are not understood", True)
            return
        x = resolve(self.case, a)
        w = self.S.d(want) if want else None
        if x is not w:
            self.fail(f"the index is recorded as {txt(x)} afterwards instead of {txt(w)}", self.unsure(x))

    def unsure(self, x):
        return unclear(x) or (x is not None and opaque_terms(x)) or (isinstance(x, T) and x.op == "mget" and x.a[0].op == "ver")

    def expect_node(self, want, kn=None):
        """want: dict variant -> value; every other container holds nothing under the key"""
        for v in self.S.vs:
            a = view(self.run.I, self.fin(self.S.cont[v]), kn or self.kn)
            if a is None:
                self.fail(f"the nodes of category {v} after it are not understood", True)
                return
            x = resolve(self.case, a)
            w = want.get(v)
            if x is not w:
                self.fail(f"category {v} holds {txt(x)} under the index afterwards instead of {txt(w)}", self.unsure(x))

    def others_untouched(self, avoid):
        """every index other than the avoided one keeps its node"""
        k, kn = mk("param", "any#k"), mk("nf", mk("param", "any#k"))
        I = self.run.I
        m = dict(self.case.m)
        for a, b in avoid:
            m[mk("eq", a, k)] = m[mk("eq", k, a)] = False
            m[mk("eq", b, kn)] = m[mk("eq", kn, b)] = False
        cs = Case(I, m)
        base = mk("param", "self")
        for i, kk, what in [(self.S.disp, k, "recorded type")] + [(self.S.cont[v], kn, "node of category " + v) for v in self.S.vs]:
            f = self.fin(i)
            o = self.S.field(i)
            if f is o:
                continue
            a = view(I, f, kk)
            if a is None:
                self.fail(f"the {what} of other indices is not understood", True)
                return
            bad = None
            h = BDD.atom(mk("has", o, kk))
            for g, z in a:
                g = cs.guard(g)
                z = cs.term(z) if z is not None else None
                if g == 0:
                    continue
                ok = BDD.NOT(h) if z is None else (h if z is mk("mget", o, kk) else 0)
                r, cb = implies(g, ok)
                if r is not True:
                    bad = (z, cb, r)
            if bad:
                self.fail(f"the {what} of another index becomes {txt(bad[0])} when {show_cube(bad[1])}", bad[2] is None or self.unsure(bad[0]))

    def expect_ret(self, want):
        v = self.run.retval()
        x = self.case.term(v)
        if x.op == "bool" or want.op == "bool" or (want.op == "c" and isinstance(want.a[0], bool)):
            got = self.case.guard(self.run.I.bdd(x))
            w = self.case.guard(self.run.I.bdd(want))
            if got != w:
                self.fail(f"returns {BDD.show(got)} instead of {BDD.show(w)}", got not in (0, 1))
            return
        if x is not want:
            self.fail(f"returns {show(x)} instead of {show(want)}", x.op == "choice" or self.unsure(x) or opaque_terms(x))


def node(S, v, kn=KEY, base=None):
    return mk("mget", S.field(S.cont[v], base), kn)


def lookups(rep, S, rule):
    for m in ("dispatch", "contains", "get", "get_mut"):
        w = S.where(m)
        for st in S.states():
            r = S.run(m, ["self", "i"], None, st)
            if not W.usable(rep, rule, w, r) or not W.returns(rep, rule, w, r):
                continue
            kind, v = st
            o = Op(rep, S, rule, m, r, st)
            if o.may_not_panic():
                if m == "dispatch":
                    if kind == "allocated":
                        pass
                    o.expect_ret(engine.some(S.d(v)) if v else engine.none())
                elif m == "contains":
                    o.expect_ret(mk("bool", 1 if kind == "holds" else 0))
                elif m == "get":
                    o.expect_ret(engine.some(node(S, v)) if kind == "holds" else engine.none())
                else:
                    x = o.case.term(r.ret)
                    if kind == "holds":
                        pl = r.I.place(mk("P", "self"), (mk(".f", S.cont[v]), mk(".at", KEY)))
                        if x is not engine.some(mk("ref", pl)):
                            o.fail(f"hands out {show(x)} instead of the stored node", x.op == "choice" or opaque_terms(x))
                    elif x is not engine.none():
                        o.fail(f"hands out {show(x)} although no node is there", x.op == "choice" or opaque_terms(x))
                unchanged(o)
            o.done()


def unchanged(o):
    kind, v = o.st
    o.expect_dispatch(v)
    o.expect_node({v: node(o.S, v)} if kind == "holds" else {})
    o.others_untouched([(IX, KEY)])


def changes(rep, S, rule, reject):
    """rule: obligations about stored nodes; reject: obligations about rejected misuse (either may be None)"""
    # remove
    m = "remove"
    if rule:
        for st in S.states():
            r = S.run(m, ["self", "i"], None, st)
            if not W.usable(rep, rule, S.where(m), r) or not W.returns(rep, rule, S.where(m), r):
                continue
            kind, v = st
            o = Op(rep, S, rule, m, r, st)
            if o.may_not_panic():
                o.expect_ret(engine.some(node(S, v)) if kind == "holds" else engine.none())
                o.expect_dispatch(None)
                o.expect_node({})
                o.others_untouched([(IX, KEY)])
            o.done()
    # fill_back, fill_back_untyped
    for m in ("fill_back", "fill_back_untyped"):
        for v in S.vs:
            for st in S.states():
                r = S.run(m, ["self", "i", "item"], {"item": S.item(v)}, st)
                if not W.usable(rep, rule or reject, S.where(m), r):
                    continue
                kind, u = st
                typed = m == "fill_back"
                wrong = None
                if kind == "holds":
                    wrong = "the index already holds a node"
                elif typed and kind == "unknown":
                    wrong = "the index was never allocated with a type"
                elif typed and u != v:
                    wrong = f"the index was allocated for {u}, the node is a {v}"
                o = Op(rep, S, (reject if wrong else rule) or rule or reject, f"{m} with a {v}", r, st)
                if wrong:
                    if not reject:
                        continue
                    o.must_panic(wrong)
                    o.done()
                    continue
                if not typed and kind == "allocated" and u != v:
                    # either rejecting or retyping is consistent
                    if o.panics() == 1:
                        continue
                if not rule:
                    o.rule = reject
                    o.may_not_panic()
                    o.done()
                    continue
                if o.may_not_panic():
                    o.expect_dispatch(v)
                    o.expect_node({v: S.item(v)})
                    o.others_untouched([(IX, KEY)])
                o.done()
    # alloc, insert, alloc_untyped
    for m in ("alloc", "insert", "alloc_untyped"):
        for v in S.vs if m != "alloc_untyped" else S.vs[:1]:
            vals = {"alloc": {"d": S.d(v)}, "insert": {"item": S.item(v)}, "alloc_untyped": {}}[m]
            names = {"alloc": ["self", "d"], "insert": ["self", "item"], "alloc_untyped": ["self"]}[m]
            r = S.run(m, names, vals)
            w = S.where(m)
            if not rule or not W.usable(rep, rule, w, r) or not W.returns(rep, rule, w, r):
                continue
            ix = r.retval()
            kn = r.I.project(ix, mk(".n"))
            if opaque_terms(ix):
                rep.und(rule, w, f"returns {show(ix)}")
                continue
            o = Op(rep, S, rule, f"{m}({v})", r, ("unknown", None), key=ix, kn=kn)
            if o.may_not_panic():
                o.expect_dispatch(None if m == "alloc_untyped" else v)
                o.expect_node({v: S.item(v)} if m == "insert" else {})
                o.others_untouched([(ix, kn)])
            o.done()
    # update_with, modify_with
    for m in ("update_with", "modify_with"):
        w = S.where(m)
        f = mk("param", "f")
        for st in S.states():
            kind, v = st
            if kind != "holds":
                if not reject:
                    continue
                r = S.run(m, ["self", "i", "f"], None, st)
                if not W.usable(rep, reject, w, r):
                    continue
                o = Op(rep, S, reject, m, r, st)
                o.must_panic("there is no node under the index")
                o.done()
                continue
            if not rule:
                continue
            old = node(S, v)
            res = mk("apply" if m == "update_with" else "called", f, old)
            for u in S.vs:
                r = S.run(m, ["self", "i", "f"], None, st, u)
                if not W.usable(rep, rule, w, r):
                    continue
                o = Op(rep, S, rule, m, r, st)
                o.w += f", becomes a {u}"
                calls = [e for e in r.log if e.op == "callfn"]
                for e in calls:
                    if e.args[0] is not f or e.args[1] is not old or e.pc != 1 or e.loops:
                        o.fail(f"calls {show(e.args[0])} on {show(e.args[1])}", opaque_terms(*e.args) or e.pc != 1)
                if len(calls) != 1:
                    o.fail(f"the function is called {len(calls)} times")
                if o.may_not_panic():
                    o.expect_dispatch(u)
                    o.expect_node({u: res})
                    o.others_untouched([(IX, KEY)])
                o.done()


def whole(rep, S, rule):
    """new, len, merge, new_from_iter"""
    P = S.P
    w = S.where("new")
    r = S.run("new", ["dist"])
    if W.usable(rep, rule, w, r) and W.returns(rep, rule, w, r):
        v = r.retval()
        ok = v.op == "agg" and v.a[0] == S.adt
        if not ok:
            rep.und(rule, w, show(v)[:200])
        else:
            for i in [S.disp] + list(S.cont.values()):
                x = v.a[2][i]
                if x.op == "coll" and x.a[3] == ():
                    continue
                ok = False
                rep.und(rule, w, f"field {i} starts as {show(x)[:100]}")
            if ok:
                rep.ok(rule, w)
            if S.dist is not None:
                rep.check(v.a[2][S.dist] is mk("param", "dist"), rule, w, f"the store does not use the given source of indices but {show(v.a[2][S.dist])[:100]}") \
                    if not opaque_terms(v.a[2][S.dist]) else rep.und(rule, w, "source of indices")
    w = S.where("len")
    r = S.run("len", ["self"])
    if W.usable(rep, rule, w, r) and W.returns(rep, rule, w, r):
        check_sum(rep, rule, w, r, r.retval(), [mk("len", S.field(i)) for i in S.cont.values()])
    merge_moves(rep, S, rule)
    w = S.where("new_from_iter")
    for u in S.vs:
        r = S.run("new_from_iter", ["dist", "it"], None, None, u)
        if not W.usable(rep, rule, w, r) or not W.returns(rep, rule, w, r):
            continue
        v = r.retval()
        if v.op != "agg" or v.a[0] != S.adt:
            rep.und(rule, w, show(v)[:200])
            continue
        for what, i, want in [("recorded types", S.disp, None)] + [("nodes of category " + x, S.cont[x], x) for x in S.vs]:
            x = v.a[2][i]
            ws = f"{w}, {what}, a {u}"
            if x.op != "coll" or x.a[3] is None:
                rep.und(rule, ws, show(x)[:200])
                continue
            got = []
            for k in x.a[3]:
                loops = k.a[0]
                if k.a[1] == 0:
                    continue
                if len(loops) != 1 or strip(loops[0].a[0]) is not mk("param", "it") or k.a[1] != 1 or opaque_terms(k.a[2]):
                    got.append(None)
                    continue
                got.append((k.a[2], mk("elem", loops[0])))
            if None in got:
                rep.und(rule, ws, "not understood")
            elif want is not None and want != u:
                rep.check(not got, rule, ws, f"a node of type {u} is put there")
            elif len(got) != 1:
                rep.bad(rule, ws, f"{len(got)} entries for every node of type {u} instead of one")
            else:
                t, el = got[0]
                ix = mk("field", el, 0)
                e = tup(ix, S.d(u)) if want is None else tup(mk("nf", ix), mk("field", el, 1))
                rep.check(t is e, rule, ws, f"the entry is {show(t)} instead of {show(e)}")


def merge_moves(rep, S, rule):
    w = S.where("merge")
    r = S.run("merge", ["self", "other"])
    if W.usable(rep, rule, w, r) and W.returns(rep, rule, w, r):
        for what, i in [("recorded types", S.disp)] + [("nodes of category " + v, S.cont[v]) for v in S.vs]:
            mine, theirs = S.field(i), mk("field", mk("param", "other"), i)
            evs = [e for e in r.log if e.path is not None and strip(e.path) is mine]
            full = [e for e in evs if moves_all(e, theirs)]
            bad = [e for e in evs if e not in full]
            if len(full) == 1 and not bad:
                rep.ok(rule, f"{w}, {what}")
            elif any(opaque_terms(*e.args) for e in evs) or r.I.unknown:
                rep.und(rule, f"{w}, {what}", "not understood")
            elif not evs:
                o = W.final(r)
                rep.bad(rule, f"{w}, {what}", f"{show(theirs)} is not added to {show(mine)}")
            else:
                b = bad[0] if bad else full[1]
                if bad and all(e.op in ("append", "ins", "rem", "clear") for e in bad) and all(known_move(e) for e in bad):
                    rep.bad(rule, f"{w}, {what}", f"{show(mine)} gets {b.op} {' '.join(show(a) for a in b.args)[:200]} instead of exactly {show(theirs)}")
                else:
                    rep.und(rule, f"{w}, {what}", f"{b.op} of {show(mine)}")


def known_move(e):
    if e.loops:
        return len(e.loops) == 1 and e.pc in (0, 1)
    return e.op in ("append", "clear", "rem")


def moves_all(e, theirs):
    """this event adds every entry of the other map"""
    if e.op == "append":
        a = e.args[0]
        o = a.a[0] if a.op == "coll" and not a.a[2] else a
        return o is theirs and not e.loops and e.pc == 1
    if e.op == "ins" and len(e.loops) == 1:
        l = e.loops[0][0]
        src = strip(l.a[0])
        if src is not theirs or normg(e.pc) != 1 or len(e.args) < 2:
            return False
        k, el = mk("key", l), mk("elem", l)
        got = strip(e.args[0]), strip(e.args[1])
        return got in ((strip(k), strip(mk("mget", l.a[0], k))), (strip(mk("field", el, 0)), strip(mk("field", el, 1))))
    return False


def terms_of_sum(t):
    if t.op == "sum" or (t.op == "prim" and t.a[0] == "sum"):
        out = []
        for x in t.a if t.op == "sum" else t.a[1:]:
            if isinstance(x, tuple):
                for y in x:
                    out += terms_of_sum(y)
            else:
                out += terms_of_sum(x)
        return out
    return [t]


def check_sum(rep, rule, w, r, got, want):
    if opaque_terms(got) or got.op == "choice":
        rep.und(rule, w, show(got)[:200])
        return False
    g = sorted(strip(x).id for x in terms_of_sum(got) if not (x.op == "c" and x.a[0] == 0))
    if g == sorted(x.id for x in want):
        rep.ok(rule, w)
        return True
    ok = all(x.op in ("len", "c") for x in terms_of_sum(got))
    if got.op == "prim" and got.a[0] in ("max", "min", "last", "product") and len(want) > 1:
        ok = True
    (rep.bad if ok else rep.und)(rule, w, f"counts {show(got)} instead of {' + '.join(show(x) for x in want)}")
    return False


def iterators(rep, S, rule):
    """the three iterators visit every container exactly once and pair each node with its index"""
    for m, what, mode in (("iter", "Iter", "ref"), ("iter_mut", "IterMut", "mut"), ("into_iter", "IntoIter", "val")):
        tn = S.G.assoc("CateArena", S.name, what)
        w = S.where(m)
        r = S.run(m, ["self"])
        if tn is None:
            rep.und(rule, w, "no iterator type")
            continue
        tn = tn.split("::")[-1]
        if not W.usable(rep, rule, w, r) or not W.returns(rep, rule, w, r):
            continue
        v = r.retval()
        if v.op != "agg" or opaque_terms(v):
            xs = W.items(r, r.ret)
            if xs is None:
                rep.und(rule, w, show(v)[:200])
            else:
                generic_listing(rep, S, rule, w, r, xs, mode)
            continue
        # the iterators over containers among the fields
        its = {}
        state = None
        for i, x in enumerate(v.a[2]):
            if x.op == "it" and x.a[0] == "src" and x.a[1] == "map" and x.a[3] == mode:
                src = strip(x.a[2])
                if src.op == "coll":
                    src = src.a[0]
                its[i] = src
            elif x.op == "agg" and state is None:
                state = i
            else:
                state = "?"
        want = {S.field(i): n for n, i in S.cont.items()}
        if state in (None, "?") or any(x not in want for x in its.values()):
            rep.und(rule, w, show(v)[:300])
            continue
        # walk the states
        one = one_pass(S, rep, rule, tn, v, its, want) if set(its.values()) == set(want) and len(its) == len(want) else None
        cur, seen, ok, order = v.a[2][state], [], True, []
        if one is not None:
            for n in one:
                rep.ok(rule, S.where(f"next of {tn}", n))
            order, ok = list(want), True
        for step in range(len(S.vs) + 3) if one is None else ():
            if cur in seen:
                rep.bad(rule, S.where(f"next of {tn}"), f"the state {show(cur)} follows itself")
                ok = False
                break
            seen.append(cur)
            fs = list(v.a[2])
            fs[state] = cur
            me = agg(v.a[0], v.a[1], *fs)
            n = S.G.run(tn, "next", ["self"], "Iterator", {"self": me})
            ws = S.where(f"next of {tn}", show(cur))
            if not W.usable(rep, rule, ws, n) or not W.returns(rep, rule, ws, n):
                ok = None
                break
            res = step_of(n, me, state, its)
            if res is None:
                rep.und(rule, ws, "the step is not understood: " + show(n.ret)[:300])
                ok = None
                break
            if res[0] == "end":
                rep.ok(rule, ws)
                break
            kind, i, item, nxt, errs = res
            if errs:
                rep.bad(rule, ws, errs)
                ok = False
                break
            src = its[i]
            f = mk("prim", "first", src)
            k, x = mk("field", f, 0), mk("field", f, 1)
            idx = agg(models.NI if hasattr(models, "NI") else node_index(S), "NodeIndex", k)
            wi = tup(idx, x)
            if item is not wi:
                if opaque_terms(item):
                    rep.und(rule, ws, show(item))
                    ok = None
                else:
                    rep.bad(rule, ws, f"yields {show(item)} instead of {show(wi)}")
                    ok = False
            else:
                rep.ok(rule, ws)
            order.append(src)
            cur = nxt
        else:
            if one is None:
                ok = None
        if ok:
            miss = [n for s, n in want.items() if s not in order]
            dup = [want[s] for s in order if order.count(s) > 1]
            rep.check(not miss and not dup, rule, w, "; ".join([f"nodes of category {n} are never reached" for n in miss] + [f"nodes of category {n} are visited twice" for n in dup[:1]]))
        # sizes, for any state of the iterator: the parts not yet visited
        ws = S.where(f"size_hint of {tn}")
        n = S.G.run(tn, "size_hint", ["self"], "Iterator", {"self": v})
        if W.usable(rep, rule, ws, n) and W.returns(rep, rule, ws, n):
            t = n.retval()
            lens = [mk("len", s) for s in want]
            if t.op == "agg" and t.a[0] == "()" and t.a[2][1].op == "agg":
                if t.a[2][1].a[1] == "None":
                    rep.bad(rule, ws, "no upper bound is reported")
                else:
                    check_sum(rep, rule, ws, n, t.a[2][0], lens)
                    check_sum(rep, rule, ws, n, t.a[2][1].a[2][0], lens)
            else:
                rep.und(rule, ws, show(t)[:200])
        # overridden methods of the iterator would need rules of their own
        for x in ("len", "count", "nth", "fold", "last", "for_each"):
            for tr in ("Iterator", "ExactSizeIterator"):
                if S.P.method(tn, x, tr, "witness"):
                    rep.und(rule, S.where(f"{x} of {tn}"), "not covered")


def one_pass(S, rep, rule, tn, me, its, want):
    """next looks into all parts in some order and yields the first element of the first part that has one: the order, or None"""
    n = S.G.run(tn, "next", ["self"], "Iterator", {"self": me})
    if n is None or n.error or n.st is None or n.ret is None or n.I.unknown or any(e.op in ("recur", "panic") for e in n.log):
        return None
    I = n.I
    by = {}
    none = 0
    for g, x in I.alts(n.ret):
        if x.op == "agg" and x.a[1] == "None":
            none = BDD.OR(none, g)
            continue
        if x.op != "agg" or x.a[1] != "Some":
            return None
        y = I.canon(n.st, x.a[2][0])
        hit = None
        for s in its.values():
            f = mk("prim", "first", s)
            if y is tup(agg(node_index(S), "NodeIndex", mk("field", f, 0)), mk("field", f, 1)):
                hit = s
        if hit is None or hit in by:
            return None
        by[hit] = g
    if set(by) != set(want):
        return None
    em = {s: BDD.atom(mk("empty", s)) for s in by}
    order = sorted(by, key=lambda s: len(BDD.support(by[s])))
    pre = 1
    for s in order:
        if by[s] != BDD.AND(pre, BDD.NOT(em[s])):
            return None
        pre = BDD.AND(pre, em[s])
    if none != pre:
        return None
    for g, x in I.alts(W.final(n)):
        if x.op != "agg":
            return None
        for i, y in enumerate(x.a[2]):
            if i not in its:
                continue
            for h, z in I.alts(y):
                h = BDD.AND(g, h)
                if z is me.a[2][i]:
                    if BDD.AND(h, by[its[i]]) != 0:
                        return None
                elif z.op == "it" and z.a[0] == "rest" and z.a[1] is me.a[2][i]:
                    # trying an exhausted part changes nothing
                    if BDD.AND(h, BDD.NOT(by[its[i]]), BDD.NOT(em[its[i]])) != 0:
                        return None
                else:
                    return None
    return [want[s] for s in order]


def node_index(S):
    for n in S.P.adts:
        if n.split("::")[-1] == "NodeIndex" and n.startswith("ttgraph"):
            return n
    return "ttgraph::typed_graph::NodeIndex"


def step_of(n, me, state, its):
    """('end',) or ('step', field, item, next state, error)"""
    I = n.I
    v = n.ret
    if v.op == "agg" and v.a[1] == "None":
        return ("end",)
    item = field = nxt = None
    for g, x in I.alts(v):
        if x.op == "agg" and x.a[1] == "Some":
            # not empty
            y = I.canon(n.st, x.a[2][0])
            sup = BDD.support(g)
            if len(sup) != 1 or sup[0].op != "empty" or g != BDD.NOT(BDD.atom(sup[0])):
                return None
            fs = [i for i, s in its.items() if s is sup[0].a[0]]
            if not fs:
                return None
            field, item = fs[0], y
        elif x.op == "prim" and x.a[0] == "recur":
            m = x.a[-1]
            if m.op != "agg":
                return None
            nxt = m.a[2][state]
        elif x.op == "agg" and x.a[1] == "None":
            nxt = x
        else:
            return None
    if field is None or nxt is None:
        return None
    # what is left of the iterator after yielding: only the visited part advanced
    errs = None
    for g, x in I.alts(W.final(n)):
        if x.op != "agg":
            continue
        for i, y in enumerate(x.a[2]):
            if i == state:
                continue
            adv = y.op == "it" and y.a[0] == "rest"
            if adv and y.a[1] is not me.a[2][i]:
                return None
            if adv and i != field:
                errs = f"skips an element of {show(its.get(i, mk('c', i)))}"
            if not adv and i == field:
                errs = f"yields the first element of {show(its[field])} without moving on"
            if not adv and y is not me.a[2][i]:
                return None
        if x.a[2][state] is not me.a[2][state] and any(True for _ in [0]) and not errs:
            # leaving the container although it may hold more
            h = [z for z in n.log if z.op == "recur"]
            if not h:
                return None
            errs = f"goes on to {show(x.a[2][state])} after one element of {show(its[field])}"
    return ("step", field, item, nxt, errs)


def generic_listing(rep, S, rule, w, r, xs, mode):
    """an iterator made of standard adapters: compare what it lists"""
    want = []
    ni = node_index(S)
    for v, i in S.cont.items():
        src = S.field(i)
        l = mk("loop", src, 0)
        k = mk("key", l)
        want.append(((l,), 1, tup(agg(ni, "NodeIndex", k), mk("mget", src, k))))
    W.compare(rep, rule, w, r, xs, want)


def stores(ctx):
    return [Store(G, e) for G in W.gens(ctx) for e in G.es]


def graph_reads(ctx, rep, rule, iters):
    """the read operations of a graph: get (iters False), or iteration and length (iters True)"""
    P = ctx.prog()
    roles = graph_roles(P)
    if "N" not in roles:
        rep.und(rule, "Graph", "the layout of the graph is not understood")
        return

    def N(I):
        return path_term(I, mk("param", "self"), roles["N"])

    def listing(r, g=lambda n: 1):
        src = N(r.I)
        l = mk("loop", src, 0)
        k = mk("key", l)
        n = mk("mget", src, k)
        return [((l,), g(n), tup(k, n))]
    if not iters:
        r = ctx.run("Graph", "get", ["self", "i"])
        if W.usable(rep, rule, "Graph::get", r) and W.returns(rep, rule, r.where, r) and W.nopanic(rep, rule, r.where, r):
            src = N(r.I)
            h = r.I.has(src, IX)
            if W.check_value(rep, rule, r.where, r, r.retval(), [(h, engine.some(mk("mget", src, IX))), (BDD.NOT(h), engine.none())], "the result"):
                rep.ok(rule, r.where)
        return
    for m in ("iter",):
        r = ctx.run("Graph", m, ["self"])
        if W.usable(rep, rule, "Graph::" + m, r) and W.returns(rep, rule, r.where, r):
            W.compare(rep, rule, r.where, r, W.items(r, r.ret), listing(r))
    for b in P.bodies.values():
        it = b.item
        if b.foreign or it.get("m") != "into_iter" or "impl_self" not in it or (it.get("impl_trait") or "").split("::")[-1] != "IntoIterator":
            continue
        st = P.ty(b.crate, it["impl_self"])
        byref = st["k"] == "ref"
        if byref:
            st = P.ty(b.crate, st["t"])
        if st.get("n", "").split("::")[-1] != "Graph":
            continue
        k = ("into_iter", byref)
        if k not in ctx.runs:
            ctx.runs[k] = Run(ctx, P, b, ["self"])
        r = ctx.runs[k]
        if W.usable(rep, rule, r.where, r) and W.returns(rep, rule, r.where, r):
            W.compare(rep, rule, r.where, r, W.items(r, r.ret), listing(r))
    r = ctx.run("Graph", "iter_group", ["self", "name"])
    if W.usable(rep, rule, "Graph::iter_group", r) and W.returns(rep, rule, r.where, r):
        W.compare(rep, rule, r.where, r, W.items(r, r.ret), listing(r, lambda n: BDD.atom(mk("prim", "in_group", n, mk("param", "name")))))
    r = ctx.run("Graph", "len", ["self"])
    if W.usable(rep, rule, "Graph::len", r) and W.returns(rep, rule, r.where, r):
        check_sum(rep, rule, r.where, r, r.retval(), [mk("len", N(r.I))])
    r = ctx.run("Graph", "is_empty", ["self"])
    if W.usable(rep, rule, "Graph::is_empty", r) and W.returns(rep, rule, r.where, r):
        W.check_flag(rep, rule, r.where, r, r.retval(), BDD.atom(mk("empty", N(r.I))), "the result")
    # by type
    r = ctx.run("Graph", "iter_type", ["self", "d"])
    if W.usable(rep, rule, "Graph::iter_type", r) and W.returns(rep, rule, r.where, r):
        v = r.retval()
        src = N(r.I)
        cont = mk("mget", src, mk("cont", mk("param", "d")))
        if v.op == "agg" and v.a[0].split("::")[-1] == "NodeIterator" and len(v.a[2]) == 1:
            it = v.a[2][0]
            if it.op == "it" and it.a[0] == "src" and it.a[1] == "map":
                rep.check(strip(it.a[2]) is cont, rule, r.where, f"goes through {show(it.a[2])} instead of the nodes of the asked type")
            elif it.op == "it" and it.a[0] in ("skip", "take", "filter", "chain", "rest", "step_by"):
                rep.bad(rule, r.where, f"goes through {show(it)[:200]} instead of all nodes of the asked type")
            else:
                rep.und(rule, r.where, show(v)[:200])
        else:
            xs = W.items(r, r.ret)
            l = mk("loop", cont, 0)
            k = mk("key", l)
            ni = [n for n in P.adts if n.split("::")[-1] == "NodeIndex"]
            W.compare(rep, rule, r.where, r, xs, [((l,), 1, tup(agg(ni[0], "NodeIndex", k), mk("mget", cont, k)))])
    r = ctx.run("NodeIterator", "next", ["self"], "Iterator")
    if r is not None and W.usable(rep, rule, r.where, r) and W.returns(rep, rule, r.where, r):
        me = mk("param", "self")
        inner = r.I.project(me, mk(".n"))
        f = mk("prim", "first", inner)
        ni = [n for n in P.adts if n.split("::")[-1] == "NodeIndex"]
        e = BDD.atom(mk("empty", inner))
        want = engine.some(tup(agg(ni[0], "NodeIndex", mk("field", f, 0)), mk("field", f, 1)))
        if W.check_value(rep, rule, r.where, r, r.retval(), [(BDD.NOT(e), want), (e, engine.none())], "the result"):
            rep.ok(rule, r.where)
        x = r.I.project(W.final(r), mk(".n"))
        if x.op == "it" and x.a[0] == "rest" or x is inner:
            rep.check(x.op == "it" and x.a[1] is inner, rule, r.where, f"the iterator goes on with {show(x)} instead of the rest")
        else:
            rep.und(rule, r.where, f"the iterator goes on with {show(x)[:200]}")
    r = ctx.run("NodeIterator", "size_hint", ["self"], "Iterator")
    if r is not None and W.usable(rep, rule, r.where, r) and W.returns(rep, rule, r.where, r):
        n = mk("len", r.I.project(mk("param", "self"), mk(".n")))
        t = r.retval()
        if t.op == "agg" and t.a[0] == "()" and t.a[2][1].op == "agg":
            if t.a[2][1].a[1] == "None":
                rep.bad(rule, r.where, "no upper bound is reported")
            else:
                check_sum(rep, rule, r.where, r, t.a[2][0], [n])
                check_sum(rep, rule, r.where, r, t.a[2][1].a[2][0], [n])
        else:
            rep.und(rule, r.where, show(t)[:200])


def c16(ctx, rep):
    for S in stores(ctx):
        if not S.roles(rep, "categories"):
            continue
        lookups(rep, S, "lookup")
        changes(rep, S, "store", None)
        whole(rep, S, "whole store")
    graph_reads(ctx, rep, "graph lookup", False)
    W.floor(rep, "categories", 14)


def c17(ctx, rep):
    for S in stores(ctx):
        if not S.roles(rep, "categories"):
            continue
        iterators(rep, S, "iteration")
    graph_reads(ctx, rep, "graph iteration", True)
    W.floor(rep, "categories", 14)

"""Rules over the code the macros generate: the reflection of node types, node enums, declarations.

The macros are expanded on witness declarations (wit.py) and the generated functions are read with
symbolic node contents; only identifiers of links, names and node variants, which are finitely many,
are enumerated.  What each function must do follows from the declaration alone."""
from term import mk, BDD, show, T
import build
import wit
import engine
import models
from engine import agg, c, strip, tup
from spec import Run, implies, normg, opaque_terms, show_cube, batom, rel

LIMIT = 400


class Gen:
    """the generated code of one set of declarations"""

    def __init__(self, ctx, tag, name, ss, es, P):
        self.ctx, self.tag, self.name, self.ss, self.es, self.P = ctx, tag, name, ss, es, P
        self.runs = {}
        self.sdict = {s.name: s for s in ss}

    # ---- names of generated types
    def assoc(self, trait, tn, what):
        for (t, n), d in self.P.assoc.items():
            if t.split("::")[-1] == trait and n == "witness::" + tn:
                return d.get(what)
        return None

    def variant(self, adt, camel):
        """variant of a generated enum that stands for a name"""
        ad = self.P.adts.get(adt)
        if ad is None:
            return None
        for v in ad["vs"]:
            if v["n"] == camel:
                return v["n"]
        for v in ad["vs"]:
            if v["n"].lower().replace("_", "") == camel.lower().replace("_", ""):
                return v["n"]
        return None

    def link(self, s, f):
        a = self.assoc("TypedNode", s.name, "LinkMirror")
        v = self.variant(a, f.camel)
        return agg(a, v) if v else None

    def source(self, s, f, pos=None):
        a = self.assoc("TypedNode", s.name, "Source")
        v = self.variant(a, f.camel)
        if not v:
            return None
        return agg(a, v, pos) if f.kind == "vec" else agg(a, v)

    def log(self, s, name):
        a = self.assoc("TypedNode", s.name, "LoGMirror")
        v = self.variant(a, wit.pascal(name))
        return agg(a, v) if v else None

    def disc(self, e, v):
        return agg(self.assoc("NodeEnum", e.name, "Discriminant"), v)

    def wrap(self, e, v, what, x):
        return agg(self.assoc("NodeEnum", e.name, what), v, x)

    # ---- runs
    def run(self, tn, m, names, trait, values=None, facts=None, case=None):
        k = (tn, m, trait, tuple(sorted((values or {}).items(), key=lambda x: x[0])), case)
        if k not in self.runs:
            bs = self.P.method(tn, m, trait, "witness")
            b = bs[0] if bs else self.P.default_method(trait, m)
            self.runs[k] = Run(self.ctx, self.P, b, names, {}, "witness::" + tn, values, facts) if b else None
        return self.runs[k]

    def where(self, tn, m):
        return f"generated {m} of {tn}"


def gens(ctx):
    """the sets of declarations to read: one fixed, in the thorough tier also seeded random ones"""
    if "gens" in ctx.__dict__:
        return ctx.gens
    ss, es = wit.fixed()
    out = [Gen(ctx, "default", "fixed", ss, es, ctx.prog("default", ("ttgraph", "witness")))]
    if ctx.tier == "thorough":
        for i in range(6):
            name = f"rand{i}"
            s2, e2 = wit.rand(ctx.seed * 1000 + i)
            out.append(Gen(ctx, "default", name, s2, e2, ctx.prog_of(name, wit.source(s2, e2))))
    ctx.gens = out
    return out


# ---------------------------------------------------------------------- field terms
def fld(I, base, s, f):
    i = s.index(f.name) if not isinstance(f, int) else f
    return I.project(base, mk(".n") if len(s.fields) == 1 else mk(".f", i))


def isempty(I, x):
    return I.eqv(I.project(x, mk(".n")), c(0))


def lp(src):
    return mk("loop", src, 0)


def link_items(I, base, s, f):
    """(loops, guard, index, slot) for every index of a link field"""
    v = fld(I, base, s, f)
    if f.kind == "direct":
        return [((), BDD.NOT(isempty(I, v)), v, None)]
    l = lp(v)
    e = mk("elem", l)
    return [((l,), BDD.NOT(isempty(I, e)), e, mk("pos", l))]


def items(run, v, kind=None):
    """contributions to a returned iterator or collection, or None if unknown"""
    I, M = run.I, run.I.M
    st = run.st.copy()
    I.dry += 1
    try:
        v = I.simp(M.unref(st, v), st)
        it = M.into_iter(st, v, None, None)
        s, col = M.collect(st, it, None, None, None)
    finally:
        I.dry -= 1
    if s is None or col.op != "coll" or col.a[3] is None:
        return None
    return [(k.a[0], k.a[1], I.canon(s, k.a[2])) for k in col.a[3]]


def nlist(xs, assume=1):
    out = []
    for loops, g, v in xs:
        out.append((tuple(strip(l) for l in loops), BDD.restrict(normg(g), normg(assume)) if assume != 1 else normg(g), strip(v)))
    return out


def compare(rep, rule, where, run, got, want, once=True, assume=1):
    """listing got must be exactly the listing want"""
    if got is None:
        rep.und(rule, where, "the listing is not understood")
        return
    got, want = nlist(got), nlist(want)
    A = normg(assume)
    G, W = {}, {}
    for l, g, v in got:
        g = BDD.AND(g, A)
        if g == 0:
            continue
        k = (l, v)
        if k in G and once and implies(BDD.AND(G[k], g), 0)[0] is False:
            rep.bad(rule, where, f"lists {show(v)} more than once")
            return
        G[k] = BDD.OR(G.get(k, 0), g)
    for l, g, v in want:
        W[(l, v)] = BDD.OR(W.get((l, v), 0), BDD.AND(g, A))
    bad = []
    und = run.error or any(opaque_terms(v) or opaque_terms(g) or any(opaque_terms(x) for x in l) for l, g, v in got)
    for k in list(G) + [k for k in W if k not in G]:
        a, b = G.get(k, 0), W.get(k, 0)
        r, cb = implies(a, b, LIMIT)
        if r is not True:
            bad.append((r, f"also lists {show(k[1])}" + (f" for {' '.join(show(x) for x in k[0])}" if k[0] else "") + f" when {show_cube(cb)}"))
        r, cb = implies(b, a, LIMIT)
        if r is not True:
            bad.append((r, f"does not list {show(k[1])}" + (f" for {' '.join(show(x) for x in k[0])}" if k[0] else "") + f" when {show_cube(cb)}"))
    if not bad:
        rep.ok(rule, where)
    elif und or any(r is None for r, _ in bad) or run.I.unknown:
        rep.und(rule, where, bad[0][1])
    else:
        rep.bad(rule, where, "; ".join(m for _, m in bad[:4]))


def usable(rep, rule, where, run):
    if run is None:
        rep.und(rule, where, "no such function")
        return False
    rep.used(run)
    if run.error:
        rep.und(rule, where, "not understood: " + run.error)
        return False
    return True


def panics(run):
    """guard under which the function panics"""
    g = 0
    for e in run.log:
        if e.op == "panic":
            g = BDD.OR(g, BDD.AND(e.pc, e.assume))
    return g


def nopanic(rep, rule, where, run, allowed=0):
    g = normg(panics(run))
    r, cb = implies(g, normg(allowed))
    if r is False and not opaque_terms(g):
        rep.bad(rule, where, f"panics when {show_cube(cb)}")
        return False
    return True


def returns(rep, rule, where, run):
    if run.st is None:
        rep.bad(rule, where, "always panics")
        return False
    return True


def check_flag(rep, rule, where, run, got, want, what, care=1):
    """boolean result got must equal want wherever care holds"""
    I = run.I
    if not isinstance(got, int):
        if got.op not in ("bool", "c", "choice") and opaque_terms(got):
            rep.und(rule, where, f"{what}: {show(got)}")
            return
        got = I.bdd(got)
    A = normg(BDD.AND(care, run.st.assume if run.st is not None else 1))
    g, w = BDD.AND(normg(got), A), BDD.AND(normg(want), A)
    for a, b, t in ((g, w, "true"), (w, g, "false")):
        r, cb = implies(a, b, LIMIT)
        if r is None or (r is False and (opaque_terms(g) or run.I.unknown)):
            rep.und(rule, where, f"{what} not decided")
            return
        if r is False:
            rep.bad(rule, where, f"{what} is {t} when {show_cube(cb)}")
            return
    rep.ok(rule, where)


def single(run, v):
    """value if there is only one alternative left"""
    I = run.I
    if v.op == "choice" and run.st is not None:
        v = I.simp(v, run.st)
    return v


# ---------------------------------------------------------------------- expectations per node type
def want_sources(G, I, base, s, wrap=lambda x: x):
    out = []
    for f in s.links:
        for loops, g, x, pos in link_items(I, base, s, f):
            out.append((loops, g, tup(x, wrap(G.source(s, f, pos)))))
    return out


def want_links(I, base, s, f):
    return [(loops, g, x) for loops, g, x, _ in link_items(I, base, s, f)]


def static_list(rep, rule, where, run):
    if not usable(rep, rule, where, run) or run.st is None:
        return None
    v = run.retval()
    v = single(run, v)
    if v.op == "agg" and v.a[0] == "[]":
        return list(v.a[2])
    xs = items(run, v)
    if xs is None or any(l or g != 1 for l, g, _ in xs):
        rep.und(rule, where, "the list is not constant: " + show(v)[:200])
        return None
    return [x for _, _, x in xs]


KIND = {"direct": "Point", "set": "Set", "vec": "Vec"}


def reflection(rep, G, s):
    """C13 for one node type"""
    tn = s.name
    base = mk("param", "self")
    w = G.where(tn, "iter_sources")
    r = G.run(tn, "iter_sources", ["self"], "TypedNode")
    if usable(rep, "iter_sources", w, r) and returns(rep, "iter_sources", w, r) and nopanic(rep, "iter_sources", w, r):
        compare(rep, "iter_sources", w, r, items(r, r.ret), want_sources(G, r.I, base, s))
    # static lists
    w = G.where(tn, "link_types, link_mirrors, link_names")
    a = static_list(rep, "link lists", w, G.run(tn, "link_types", [], "TypedNode"))
    b = static_list(rep, "link lists", w, G.run(tn, "link_mirrors", [], "TypedNode"))
    d = static_list(rep, "link lists", w, G.run(tn, "link_names", [], "TypedNode"))
    if a is not None and b is not None and d is not None:
        if not len(a) == len(b) == len(d):
            rep.bad("link lists", w, f"{len(a)} kinds, {len(b)} identifiers and {len(d)} names")
        else:
            got = list(zip(a, b, d))
            want = [(KIND[f.kind], G.link(s, f), c("s:" + f.name)) for f in s.links]
            gs = [(x.a[1] if x.op == "agg" else show(x), y, z) for x, y, z in got]
            miss = [x for x in want if gs.count(x) != 1]
            extra = [x for x in gs if x not in want]
            rep.check(not miss and not extra, "link lists", w,
                      "the lists do not agree with the declaration: " + "; ".join(
                          [f"{show(z)} should be one {k} with identifier {show(y)}" for k, y, z in miss[:3]] +
                          [f"has {k}, {show(y)}, {show(z)}" for k, y, z in extra[:3]]))
    # by link
    for f in s.links:
        w = G.where(tn, f"iter_links({f.camel})")
        r = G.run(tn, "iter_links", ["self", "link"], "TypedNode", {"link": G.link(s, f)})
        if usable(rep, "iter_links", w, r) and returns(rep, "iter_links", w, r) and nopanic(rep, "iter_links", w, r):
            compare(rep, "iter_links", w, r, items(r, r.ret), want_links(r.I, base, s, f))
    # by name and by group
    gs = s.groups()
    for m in ("get_links_by_name", "get_links_by_group"):
        names = [f.name for f in s.fields] + list(gs)
        for n in names:
            w = G.where(tn, f'{m}("{n}")')
            r = G.run(tn, m, ["self", "name"], "TypedNode", {"name": c("s:" + n)})
            if not (usable(rep, m, w, r) and returns(rep, m, w, r) and nopanic(rep, m, w, r)):
                continue
            if m == "get_links_by_name":
                want = [x for f in s.links if f.name == n for x in want_links(r.I, base, s, f)]
            else:
                want = [x for f in gs.get(n, []) for x in want_links(r.I, base, s, f)]
            compare(rep, m, w, r, items(r, r.ret), want)
        unknown_name(rep, m, G, tn, "TypedNode", names)
    m = "get_link_or_group_by_name"
    for n in [f.name for f in s.fields] + list(gs):
        w = G.where(tn, f'{m}("{n}")')
        r = G.run(tn, m, ["name"], "TypedNode", {"name": c("s:" + n)})
        if not (usable(rep, m, w, r) and returns(rep, m, w, r) and nopanic(rep, m, w, r)):
            continue
        v = single(r, r.retval())
        if opaque_terms(v):
            rep.und(m, w, show(v))
            continue
        want = G.log(s, n) if s.log(n) is not None else None
        rep.check(v is (engine.some(want) if want is not None else engine.none()), m, w,
                  f"gives {show(v)}, expected {show(want) if want is not None else 'nothing'}")
    # groups of a link and links of a group
    for f in s.links:
        w = G.where(tn, f"to_link_or_groups({f.camel})")
        xs = static_list(rep, "to_link_or_groups", w, G.run(tn, "to_link_or_groups", ["link"], "TypedNode", {"link": G.link(s, f)}))
        if xs is not None:
            want = [G.log(s, f.name)] + [G.log(s, g) for g in dict.fromkeys(f.groups)]
            same_set(rep, "to_link_or_groups", w, xs, want, once=False)
    la = G.assoc("TypedNode", tn, "LinkMirror")
    if G.variant(la, "Empty") and not s.links:
        e = agg(la, "Empty")
        r = G.run(tn, "iter_links", ["self", "link"], "TypedNode", {"link": e})
        w = G.where(tn, "iter_links(Empty)")
        if usable(rep, "iter_links", w, r) and r.st is not None:
            compare(rep, "iter_links", w, r, items(r, r.ret), [])


def unknown_name(rep, m, G, tn, trait, names, values=None):
    """a name nothing is called yields nothing"""
    w = G.where(tn, f"{m} of an unknown name")
    v = dict(values or {})
    r = G.run(tn, m, ["self", "name"], trait, v)
    if not usable(rep, m, w, r) or r.st is None:
        return
    nm = mk("param", "name")
    known = 1
    seen = set()
    got = items(r, r.ret)
    if got is None:
        rep.und(m, w, "the listing is not understood")
        return

    def at(t):
        if t.op == "eq" and nm in t.a and any(x.op == "c" for x in t.a):
            return 0
        return batom(t)
    got = [(l, BDD.mapatoms(g, at), x) for l, g, x in nlist(got)]
    for l, g, x in got:
        if g and implies(g, 0)[0] is not True:
            if opaque_terms(g, x):
                rep.und(m, w, show(x))
            else:
                rep.bad(m, w, f"lists {show(x)}")
            return
    rep.ok(m, w)


def same_set(rep, rule, where, got, want, once=True):
    """finite lists of constants"""
    if any(x is None for x in want):
        rep.und(rule, where, "identifiers not found")
        return
    if any(opaque_terms(x) for x in got):
        rep.und(rule, where, "not constant")
        return
    miss = [x for x in want if x not in got]
    extra = [x for x in got if x not in want]
    dup = [x for x in set(got) if got.count(x) > 1] if once else []
    rep.check(not miss and not extra and not dup, rule, where, "; ".join(
        [f"lacks {show(x)}" for x in miss[:3]] + [f"has {show(x)}" for x in extra[:3]] + [f"has {show(x)} more than once" for x in dup[:3]]))


# ---------------------------------------------------------------------- link edits
def final(run, root="self"):
    k = mk("P", root)
    v = run.st.store.get(k)
    return v if v is not None else mk("param", root)


def seq_at(I, v, k, fuel=20):
    """[(guard, value)] of position k of a sequence value"""
    if v.op == "choice":
        return [(BDD.AND(g, g2), y) for g, x in v.a[0] for g2, y in seq_at(I, x, k, fuel)]
    if v.op == "coll" and v.a[2] and fuel:
        ev, prev = I.content_ev.get(v.a[2], (None, None))
        if ev and ev[0] == "set":
            g = BDD.AND(ev[2], I.eqv(ev[1], k))
            return [(g, ev[3])] + [(BDD.AND(BDD.NOT(g), g2), y) for g2, y in seq_at(I, prev, k, fuel - 1)]
        if ev and ev[0] == "join":
            return [(BDD.AND(g, g2), y) for g, x in ev[1] for g2, y in seq_at(I, x, k, fuel - 1)]
        return [(1, mk("prim", "call:unknown"))]
    return [(1, mk("mget", strip(v), k))]


def untouched(rep, rule, where, run, base, fin, s, but=()):
    I = run.I
    ok = True
    if fin is base:
        return True
    for j, f in enumerate(s.fields):
        if f.name in but:
            continue
        a, b = fld(I, fin, s, j), fld(I, base, s, j)
        if a is b or strip(a) is b:
            if a is not b and a.op == "coll" and (a.a[1] or a.a[2]):
                # the collection was touched
                if not same_coll(I, a, b, f.kind):
                    rep.bad(rule, where, f"changes {f.name}")
                    ok = False
            continue
        g = normg(I.eqv(a, b))
        r, cb = implies(normg(run.st.assume), g)
        if r is True:
            continue
        if opaque_terms(a):
            rep.und(rule, where, f"{f.name} becomes {show(a)[:200]}")
        else:
            rep.bad(rule, where, f"changes {f.name} to {show(a)[:200]}")
        ok = False
    return ok


def same_coll(I, a, b, kind):
    k = mk("param", "any#k")
    if kind == "set":
        x, y = normg(I.has(a, k)), normg(I.has(b, k))
        return implies(x, y)[0] is True and implies(y, x)[0] is True
    if a.a[1]:
        return False
    for g, v in seq_at(I, a, k):
        g2 = normg(I.eqv(v, mk("mget", strip(b), k)))
        if implies(normg(g), g2)[0] is not True:
            return False
    return True


def check_value(rep, rule, where, run, got, want, what, care=1):
    """value got must equal want (list of (guard, value)) wherever care holds"""
    I = run.I
    A = normg(BDD.AND(care, run.st.assume))
    for g, w in want:
        for g2, v in I.alts(got):
            k = BDD.AND(A, normg(g), normg(g2))
            if k == 0:
                continue
            e = normg(I.eqv(v, w))
            r, cb = implies(k, e, LIMIT)
            if r is True:
                continue
            if r is None or opaque_terms(v):
                rep.und(rule, where, f"{what} becomes {show(v)[:200]}")
                return False
            rep.bad(rule, where, f"{what} becomes {show(v)[:200]} instead of {show(w)} when {show_cube(cb)}")
            return False
    return True


def edit_direct(rep, rule, where, run, base, fin, s, f, want, care=1):
    ok = check_value(rep, rule, where, run, fld(run.I, fin, s, f), want, f.name, care)
    ok = untouched(rep, rule, where, run, base, fin, s, (f.name,)) and ok
    if ok:
        rep.ok(rule, where)


def edit_set(rep, rule, where, run, base, fin, s, f, want, care=1):
    """want(k): guard under which k is a member afterwards"""
    I = run.I
    v = fld(I, fin, s, f)
    k = mk("param", "any#k")
    ok = True
    if v.op not in ("coll",) and strip(v) is not fld(I, base, s, f) or opaque_terms(v):
        rep.und(rule, where, f"{f.name} becomes {show(v)[:200]}")
        return
    got = I.has(v, k)
    A = normg(BDD.AND(care, run.st.assume))
    g, w = BDD.AND(normg(got), A), BDD.AND(normg(want(k)), A)
    for a, b, t in ((g, w, "holds an element it must not"), (w, g, "lacks an element")):
        r, cb = implies(a, b, LIMIT)
        if r is not True:
            ok = False
            if r is None or opaque_terms(g):
                rep.und(rule, where, f.name)
            else:
                rep.bad(rule, where, f"{f.name} {t} when {show_cube(cb)}")
    ok = untouched(rep, rule, where, run, base, fin, s, (f.name,)) and ok
    if ok:
        rep.ok(rule, where)


def edits(rep, G, tn, trait, s, base, mkself, ident_src, ident_link, rmod, label=""):
    """C14: modify_link, add_link, remove_link, contains_link on one node type (or enum variant)"""
    old, new, tgt, ix = (mk("param", n) for n in ("old", "new", "target", "ix"))
    # the names of the parameters are ours
    for f in s.links:
        # ---- modify_link
        m = "modify_link"
        src = ident_src(G.source(s, f, ix))
        vals = dict(mkself)
        vals["source"] = src
        w = G.where(tn, f"{m}({label}{f.camel})")
        r = G.run(tn, m, ["self", "source", "old", "new"], trait, vals)
        if usable(rep, m, w, r) and returns(rep, m, w, r):
            I = r.I
            fin = inner(r, base, mkself)
            F = fld(I, base, s, f)
            removed, added = rmod(r)
            A = r.st.assume
            en = isempty(I, new)
            if f.kind == "direct":
                if nopanic(rep, m, w, r):
                    edit_direct(rep, m, w, r, base, fin, s, f, [(1, new)])
                    ne = BDD.NOT(I.eqv(F, new))
                    check_flag(rep, m, w, r, removed, BDD.AND(ne, BDD.NOT(isempty(I, F))), "reported as removed")
                    check_flag(rep, m, w, r, added, BDD.AND(ne, BDD.NOT(en)), "reported as added")
            elif f.kind == "set":
                if nopanic(rep, m, w, r):
                    eo = I.eqv(old, new)
                    care = BDD.NOT(isempty(I, old))
                    edit_set(rep, m, w, r, base, fin, s, f, lambda k: BDD.OR(
                        BDD.AND(BDD.NOT(en), I.eqv(k, new)),
                        BDD.AND(I.has(F, k), BDD.NOT(I.eqv(k, old)))), care)
                    care = BDD.AND(care, BDD.NOT(eo))
                    check_flag(rep, m, w, r, removed, I.has(F, old), "reported as removed", care)
                    check_flag(rep, m, w, r, added, BDD.AND(BDD.NOT(en), BDD.NOT(I.has(F, new))), "reported as added", care)
            else:
                inb = I.lt(ix, mk("len", F))
                if nopanic(rep, m, w, r, BDD.NOT(inb)):
                    V = fld(I, fin, s, f)
                    ok = True
                    if V.op == "coll" and V.a[1] and not opaque_terms(V):
                        rep.bad(m, w, f"changes the length of {f.name}")
                        ok = False
                    k = mk("param", "any#k")
                    at = mk("mget", F, ix)
                    got = I.choice(seq_at(I, V, k))
                    eq = I.eqv(k, ix)
                    ok = ok and check_value(rep, m, w, r, got, [(eq, new), (BDD.NOT(eq), mk("mget", F, k))], f.name + "[k]", inb)
                    ok = untouched(rep, m, w, r, base, fin, s, (f.name,)) and ok
                    if ok:
                        rep.ok(m, w)
                    ne = BDD.NOT(I.eqv(at, new))
                    check_flag(rep, m, w, r, removed, BDD.AND(ne, BDD.NOT(isempty(I, at))), "reported as removed", inb)
                    check_flag(rep, m, w, r, added, BDD.AND(ne, BDD.NOT(en)), "reported as added", inb)
        # ---- add_link
        vals = dict(mkself)
        vals["link"] = ident_link(G.link(s, f))
        m = "add_link"
        w = G.where(tn, f"{m}({label}{f.camel})")
        r = G.run(tn, m, ["self", "link", "target"], trait, vals)
        if usable(rep, m, w, r):
            I = r.I
            F = fld(I, base, s, f)
            real = BDD.NOT(isempty(I, tgt))
            if f.kind == "vec":
                g = normg(panics(r))
                rep.check(r.st is None or implies(normg(real), g)[0] is True, m, w, "adding to a vector link by name does not panic")
            elif returns(rep, m, w, r):
                fin = inner(r, base, mkself)
                if f.kind == "direct":
                    occ = BDD.AND(BDD.NOT(isempty(I, F)), BDD.NOT(I.eqv(F, tgt)))
                    g = BDD.AND(normg(panics(r)), normg(real))
                    ok = True
                    for a, b, t in ((g, normg(occ), "panics although there is room"), (BDD.AND(normg(occ), normg(real)), g, "does not panic although another target is there")):
                        res, cb = implies(a, b)
                        if res is False and not opaque_terms(g):
                            rep.bad(m, w, f"{t}: {show_cube(cb)}")
                            ok = False
                    care = BDD.AND(real, BDD.NOT(occ))
                    if ok:
                        edit_direct(rep, m, w, r, base, fin, s, f, [(1, tgt)], care)
                        check_flag(rep, m, w, r, r.retval(), isempty(I, F), "reported as added", care)
                else:
                    if nopanic(rep, m, w, r, BDD.NOT(real)):
                        edit_set(rep, m, w, r, base, fin, s, f, lambda k: BDD.OR(I.eqv(k, tgt), I.has(F, k)), real)
                        check_flag(rep, m, w, r, r.retval(), BDD.NOT(I.has(F, tgt)), "reported as added", real)
        # ---- remove_link
        m = "remove_link"
        w = G.where(tn, f"{m}({label}{f.camel})")
        r = G.run(tn, m, ["self", "link", "target"], trait, vals)
        if usable(rep, m, w, r):
            I = r.I
            F = fld(I, base, s, f)
            real = BDD.NOT(isempty(I, tgt))
            if f.kind == "vec":
                g = normg(panics(r))
                rep.check(r.st is None or implies(normg(real), g)[0] is True, m, w, "removing from a vector link by name does not panic")
            elif returns(rep, m, w, r) and nopanic(rep, m, w, r, BDD.NOT(real)):
                fin = inner(r, base, mkself)
                if f.kind == "direct":
                    hit = I.eqv(F, tgt)
                    ad = [n for n in r.P.adts if n.endswith("::NodeIndex")][0]
                    edit_direct(rep, m, w, r, base, fin, s, f, [(hit, agg(ad, "NodeIndex", c(0))), (BDD.NOT(hit), F)], real)
                    check_flag(rep, m, w, r, r.retval(), hit, "reported as removed", real)
                else:
                    edit_set(rep, m, w, r, base, fin, s, f, lambda k: BDD.AND(BDD.NOT(I.eqv(k, tgt)), I.has(F, k)), real)
                    check_flag(rep, m, w, r, r.retval(), I.has(F, tgt), "reported as removed", real)
        # ---- contains_link
        m = "contains_link"
        w = G.where(tn, f"{m}({label}{f.camel})")
        r = G.run(tn, m, ["self", "link", "target"], trait, vals)
        if usable(rep, m, w, r) and returns(rep, m, w, r):
            I = r.I
            F = fld(I, base, s, f)
            real = BDD.NOT(isempty(I, tgt))
            if nopanic(rep, m, w, r, BDD.NOT(real)):
                fin = inner(r, base, mkself)
                if untouched(rep, m, w, r, base, fin, s):
                    if f.kind == "direct":
                        want = I.eqv(F, tgt)
                    elif f.kind == "set":
                        want = I.has(F, tgt)
                    else:
                        want = BDD.atom(mk("exists", (lp(F),), I.eqv(mk("elem", lp(F)), tgt)))
                    got = r.I.bdd(r.retval())
                    if f.kind in ("vec", "set"):
                        got = seq_contains(r, got, F, tgt, f.kind)
                    check_flag(rep, m, w, r, got, want, "containment", real)


def seq_contains(r, got, F, tgt, kind):
    """other ways to say that a collection holds an element"""
    I = r.I
    e = mk("exists", (lp(F),), normg(I.eqv(mk("elem", lp(F)), tgt)))

    def at(t):
        if t.op == "has" and strip(t.a[0]) is F and t.a[1] is tgt:
            return BDD.atom(e if kind == "vec" else mk("has", F, tgt))
        if t.op == "exists" and len(t.a[0]) == 1 and strip(t.a[0][0]) is lp(F):
            g = normg(t.a[1])
            want = normg(I.eqv(mk("elem", lp(F)), tgt))
            # conjuncts that hold of any real target do not matter
            g2 = BDD.cof(g, {mk("eq", *sorted((mk("nf", mk("elem", lp(F))), c(0)), key=lambda x: x.id)): False})
            if g == want or g2 == want:
                return BDD.atom(e if kind == "vec" else mk("has", F, tgt))
        return batom(t)
    return BDD.mapatoms(normg(got), at)


def inner(r, base, mkself):
    """final content of the node itself (below the enum variant)"""
    v = final(r)
    if "self" in mkself:
        v0 = mkself["self"]
        if v.op == "agg" and v0.op == "agg" and v.a[:2] == v0.a[:2]:
            return v.a[2][0]
        if v.op == "choice":
            return r.I.project(v, mk(".v", v0.a[1], 0))
        return mk("prim", "call:changed")
    return v


def c13(ctx, rep):
    for G in gens(ctx):
        for s in G.ss:
            reflection(rep, G, s)
    floor(rep, "iter_sources", 8)
    floor(rep, "iter_links", 60)


def floor(rep, rule, n):
    k = sum(1 for o in rep.obls if o.rule == rule)
    if k < n:
        rep.und(rule, "witness", f"only {k} instances of the rule were found, expected at least {n}")


def c14(ctx, rep):
    for G in gens(ctx):
        for s in G.ss:
            def rmod(r):
                v = r.retval()
                return r.I.project(v, mk(".f", 0)), r.I.project(v, mk(".f", 1))
            edits(rep, G, s.name, "TypedNode", s, mk("param", "self"), {}, lambda x: x, lambda x: x, rmod)
            la = G.assoc("TypedNode", s.name, "LinkMirror")
            sa = G.assoc("TypedNode", s.name, "Source")
            if not s.links and G.variant(la, "Empty"):
                for m, vals, names in (("modify_link", {"source": agg(sa, "Empty")}, ["self", "source", "old", "new"]),
                                       ("add_link", {"link": agg(la, "Empty")}, ["self", "link", "target"]),
                                       ("remove_link", {"link": agg(la, "Empty")}, ["self", "link", "target"]),
                                       ("contains_link", {"link": agg(la, "Empty")}, ["self", "link", "target"])):
                    w = G.where(s.name, m + "(Empty)")
                    r = G.run(s.name, m, names, "TypedNode", vals)
                    if usable(rep, m, w, r) and returns(rep, m, w, r):
                        if untouched(rep, m, w, r, mk("param", "self"), final(r), s):
                            v = r.retval()
                            for x in ([v] if m != "modify_link" else rmod(r)):
                                check_flag(rep, m, w, r, x, 0, "result")
    for m in ("modify_link", "add_link", "remove_link", "contains_link"):
        floor(rep, m, 40)


# ---------------------------------------------------------------------- data
def data_lookup(rep, G, tn, trait, s, base, vals, label=""):
    m = "data_ref_by_name"
    names = [f.name for f in s.fields] + list(s.groups())
    for n in names + [None]:
        w = G.where(tn, f'{m}({label}"{n}")' if n else m + " of an unknown name")
        v = dict(vals)
        if n:
            v["name"] = c("s:" + n)
        r = G.run(tn, m, ["self", "name"], trait, v)
        if not (usable(rep, m, w, r) and returns(rep, m, w, r) and nopanic(rep, m, w, r)):
            continue
        f = next((f for f in s.data if f.name == n), None)
        F = fld(r.I, base, s, f) if f else None
        ok = 0
        some = 0
        for g, x in r.I.alts(r.retval()):
            if x.op == "agg" and x.a[1] == "None":
                continue
            g = normg(g)
            if n is None:
                nm = mk("param", "name")
                g = BDD.mapatoms(g, lambda t: 0 if t.op == "eq" and nm in t.a and any(y.op == "c" for y in t.a) else batom(t))
            if g == 0:
                continue
            if x.op != "agg" or opaque_terms(x):
                rep.und(m, w, show(x)[:200])
                ok = None
                break
            y = x.a[2][0]
            if F is None:
                rep.bad(m, w, f"gives {show(y)} for something that is no data field")
                ok = None
                break
            if y is not F:
                rep.bad(m, w, f"gives {show(y)} instead of {show(F)}")
                ok = None
                break
            some = BDD.OR(some, g)
        if ok is None:
            continue
        if F is None:
            rep.ok(m, w)
            continue
        sup = BDD.support(some)
        if len(sup) == 1 and sup[0].op == "istype" and strip(sup[0].a[0]) is F and some == BDD.atom(sup[0]):
            rep.ok(m, w)
        elif some in (0, 1):
            rep.bad(m, w, "is never found" if some == 0 else "is given as whatever type is asked for")
        elif all(t.op == "istype" for t in sup):
            rep.bad(m, w, f"the type test is {BDD.show(some)}")
        else:
            rep.und(m, w, BDD.show(some))


def c20(ctx, rep):
    for G in gens(ctx):
        for s in G.ss:
            w = G.where(s.name, "data_names")
            xs = static_list(rep, "data_names", w, G.run(s.name, "data_names", [], "TypedNode"))
            if xs is not None:
                same_set(rep, "data_names", w, xs, [c("s:" + f.name) for f in s.data])
            data_lookup(rep, G, s.name, "TypedNode", s, mk("param", "self"), {})
        for e in G.es:
            for v, s in e.vs:
                node = mk("param", "node")
                data_lookup(rep, G, e.name, "NodeEnum", s, node, {"self": agg("witness::" + e.name, v, node)}, v + ", ")
    floor(rep, "data_names", 8)
    floor(rep, "data_ref_by_name", 100)


# ---------------------------------------------------------------------- node enums
def enum_self(e, v):
    node = mk("param", "node")
    return node, {"self": agg("witness::" + e.name, v, node)}


def mod_result(r):
    """(removed, added) out of a ModifyResult"""
    v = r.retval()
    ad = next((a for n, a in r.P.adts.items() if n.endswith("::ModifyResult")), None)
    out = {}
    if ad:
        for i, f in enumerate(ad["vs"][0]["f"]):
            out[f["n"]] = r.I.project(v, mk(".f", i))
    return out


def c15(ctx, rep):
    for G in gens(ctx):
        for e in G.es:
            dispatch(rep, G, e)
            conversions(rep, G, e)
    for m in ("iter_sources", "iter_links", "modify_link", "add_link", "remove_link", "contains_link", "mismatch", "discriminant",
              "in_group", "conversion", "discriminant order", "check_link"):
        floor(rep, m, 3)


def dispatch(rep, G, e):
    for v, s in e.vs:
        node, vals = enum_self(e, v)
        W = lambda m: G.where(e.name, m)
        # listings
        m = "iter_sources"
        w = W(f"{m} on {v}")
        r = G.run(e.name, m, ["self"], "NodeEnum", vals)
        if usable(rep, m, w, r) and returns(rep, m, w, r) and nopanic(rep, m, w, r):
            compare(rep, m, w, r, items(r, r.ret), want_sources(G, r.I, node, s, lambda x: G.wrap(e, v, "SourceEnum", x)))
        for f in s.links:
            m = "iter_links"
            w = W(f"{m}({v}.{f.name})")
            r = G.run(e.name, m, ["self", "link"], "NodeEnum", dict(vals, link=G.wrap(e, v, "LinkMirrorEnum", G.link(s, f))))
            if usable(rep, m, w, r) and returns(rep, m, w, r) and nopanic(rep, m, w, r):
                compare(rep, m, w, r, items(r, r.ret), want_links(r.I, node, s, f))
        gs = s.groups()
        for m in ("get_links_by_name", "get_links_by_group"):
            for n in list(gs) + [f.name for f in s.links]:
                w = W(f'{m}("{n}") on {v}')
                r = G.run(e.name, m, ["self", "name"], "NodeEnum", dict(vals, name=c("s:" + n)))
                if usable(rep, m, w, r) and returns(rep, m, w, r) and nopanic(rep, m, w, r):
                    if m == "get_links_by_name":
                        want = [x for f in s.links if f.name == n for x in want_links(r.I, node, s, f)]
                    else:
                        want = [x for f in gs.get(n, []) for x in want_links(r.I, node, s, f)]
                    compare(rep, m, w, r, items(r, r.ret), want)
        # edits

        def rmod(r):
            d = mod_result(r)
            return d.get("removed"), d.get("added")
        edits(rep, G, e.name, "NodeEnum", s, node, vals, lambda x: G.wrap(e, v, "SourceEnum", x),
              lambda x: G.wrap(e, v, "LinkMirrorEnum", x), rmod, v + ".")
        # identifiers of other variants
        for v2, s2 in e.vs:
            for f in s2.links[:3]:
                l2 = G.wrap(e, v2, "LinkMirrorEnum", G.link(s2, f))
                w = W(f"check_link({v2}.{f.name}) on {v}")
                r = G.run(e.name, "check_link", ["self", "link"], "NodeEnum", dict(vals, link=l2))
                if usable(rep, "check_link", w, r) and returns(rep, "check_link", w, r):
                    check_flag(rep, "check_link", w, r, r.retval(), 1 if v == v2 else 0, "result")
                if v2 == v:
                    continue
                for m, nm, vv in (("iter_links", ["self", "link"], {"link": l2}),
                                  ("add_link", ["self", "link", "target"], {"link": l2}),
                                  ("remove_link", ["self", "link", "target"], {"link": l2}),
                                  ("contains_link", ["self", "link", "target"], {"link": l2}),
                                  ("modify_link", ["self", "source", "old", "new"],
                                   {"source": G.wrap(e, v2, "SourceEnum", G.source(s2, f, mk("param", "ix")))})):
                    w = W(f"{m}({v2}.{f.name}) on {v}")
                    r = G.run(e.name, m, nm, "NodeEnum", dict(vals, **vv))
                    if not usable(rep, "mismatch", w, r):
                        continue
                    if r.st is None:
                        rep.ok("mismatch", w)
                        continue
                    if not untouched(rep, "mismatch", w, r, node, inner(r, node, vals), s):
                        continue
                    if m == "iter_links":
                        compare(rep, "mismatch", w, r, items(r, r.ret), [])
                    elif m == "modify_link":
                        d = mod_result(r)
                        for k in ("removed", "added"):
                            check_flag(rep, "mismatch", w, r, d[k], 0, k)
                    else:
                        check_flag(rep, "mismatch", w, r, r.retval(), 0, "result")
        # match_bd_link_group keeps exactly the links of the own variant
        m = "match_bd_link_group"
        ls = [(v2, G.wrap(e, v2, "LinkMirrorEnum", G.link(s2, f))) for v2, s2 in e.vs for f in s2.links]
        w = W(f"{m} on {v}")
        r = G.run(e.name, m, ["self", "links"], "NodeEnum", dict(vals, links=agg("[]", "", *[l for _, l in ls])))
        if usable(rep, m, w, r) and returns(rep, m, w, r):
            compare(rep, m, w, r, items(r, r.ret), [((), 1, l) for v2, l in ls if v2 == v])
        # discriminant
        w = W(f"discriminant of {v}")
        r = G.run(e.name, "discriminant", ["self"], "Discriminated", vals)
        if usable(rep, "discriminant", w, r) and returns(rep, "discriminant", w, r):
            x = single(r, r.retval())
            if opaque_terms(x):
                rep.und("discriminant", w, show(x))
            else:
                rep.check(x is G.disc(e, v), "discriminant", w, f"is {show(x)}")
        # groups
        for n in [g for g, _ in e.groups] + [x for x, _ in e.vs]:
            w = W(f'in_group("{n}") on {v}')
            r = G.run(e.name, "in_group", ["self", "name"], "NodeEnum", dict(vals, name=c("s:" + n)))
            if usable(rep, "in_group", w, r) and returns(rep, "in_group", w, r):
                g = dict(e.groups)
                check_flag(rep, "in_group", w, r, r.retval(), 1 if n in g and v in g[n] else 0, "result")
        w = W(f"in_group of an unknown name on {v}")
        r = G.run(e.name, "in_group", ["self", "name"], "NodeEnum", vals)
        if usable(rep, "in_group", w, r) and returns(rep, "in_group", w, r):
            nm = mk("param", "name")
            got = BDD.mapatoms(normg(r.I.bdd(r.retval())), lambda t: 0 if t.op == "eq" and nm in t.a and any(y.op == "c" for y in t.a) else batom(t))
            check_flag(rep, "in_group", w, r, got, 0, "result")


def conversions(rep, G, e):
    W = lambda m: G.where(e.name, m)
    for v, s in e.vs:
        for f in s.links:
            ix = mk("param", "ix")
            src = G.source(s, f, ix)
            lk = G.link(s, f)
            for tn, trait, m, a, b in ((s.name, "TypedNode", "to_link_mirror", src, lk),
                                       (s.name, "TypedNode", "to_source", lk, src),
                                       (e.name, "NodeEnum", "to_link_mirror_enum", G.wrap(e, v, "SourceEnum", src), G.wrap(e, v, "LinkMirrorEnum", lk)),
                                       (e.name, "NodeEnum", "to_source_enum", G.wrap(e, v, "LinkMirrorEnum", lk), G.wrap(e, v, "SourceEnum", src))):
                w = G.where(tn, f"{m}({v}.{f.name})")
                r = G.run(tn, m, ["input"], trait, {"input": a})
                if not usable(rep, "conversion", w, r):
                    continue
                if f.kind == "vec" and "to_source" in m:
                    # a vector link has no single position
                    rep.check(r.st is None, "conversion", w, f"gives {show(r.retval()) if r.st is not None else ''} for a vector link")
                    continue
                if not returns(rep, "conversion", w, r):
                    continue
                x = single(r, r.retval())
                if opaque_terms(x):
                    rep.und("conversion", w, show(x))
                else:
                    rep.check(x is b, "conversion", w, f"gives {show(x)} instead of {show(b)}")
    # first and next enumerate the variants
    dn = (G.assoc("NodeEnum", e.name, "Discriminant") or "").split("::")[-1]
    w = W("discriminant order")
    r = G.run(dn, "first", [], "NodeDiscriminant")
    if not usable(rep, "discriminant order", w, r) or r.st is None:
        return
    seen = []
    x = single(r, r.retval())
    while x is not None and len(seen) < 50:
        if opaque_terms(x) or x.op != "agg":
            rep.und("discriminant order", w, show(x))
            return
        if x in seen:
            rep.bad("discriminant order", w, f"{show(x)} comes twice")
            return
        seen.append(x)
        r = G.run(dn, "next", ["self"], "NodeDiscriminant", {"self": x})
        if not usable(rep, "discriminant order", w, r) or r.st is None:
            return
        n = single(r, r.retval())
        if n.op != "agg":
            rep.und("discriminant order", w, show(n))
            return
        x = n.a[2][0] if n.a[1] == "Some" else None
    same_set(rep, "discriminant order", w, seen, [G.disc(e, v) for v, _ in e.vs])


# ---------------------------------------------------------------------- declarations
def c22(ctx, rep):
    for G in gens(ctx):
        for e in G.es:
            declarations(rep, G, e)
    for m in ("opposites", "opposites of a group", "groups of a link", "links of a group", "link types", "all opposites"):
        floor(rep, m, 10)


def const_items(rep, rule, w, r):
    """returned constant list"""
    if not usable(rep, rule, w, r) or not returns(rep, rule, w, r):
        return None
    if not nopanic(rep, rule, w, r):
        return None
    xs = items(r, r.ret)
    if xs is None or any(l or g != 1 for l, g, _ in xs):
        rep.und(rule, w, "the list is not constant")
        return None
    return [x for _, _, x in xs]


def declarations(rep, G, e):
    W = lambda m: G.where(e.name, m)
    opp, lopp, allowed = e.opposites(), e.log_opposites(), e.allowed()
    LK = lambda v, n: G.wrap(e, v, "LinkMirrorEnum", G.link(e.struct(v), next(f for f in e.struct(v).links if f.name == n)))
    LG = lambda v, n: G.wrap(e, v, "LoGMirrorEnum", G.log(e.struct(v), n))
    for v, s in e.vs:
        node, vals = enum_self(e, v)
        gs = s.groups()
        for f in s.links:
            w = W(f"to_log_mirror_enums({v}.{f.name})")
            xs = const_items(rep, "groups of a link", w, G.run(e.name, "to_log_mirror_enums", ["input"], "NodeEnum", {"input": LK(v, f.name)}))
            if xs is not None:
                same_set(rep, "groups of a link", w, xs, [LG(v, f.name)] + [LG(v, g) for g in dict.fromkeys(f.groups)], once=False)
            w = W(f"get_bidiretional_link_mirrors_of({v}.{f.name})")
            xs = const_items(rep, "opposites", w, G.run(e.name, "get_bidiretional_link_mirrors_of", ["self", "link"], "NodeEnum", dict(vals, link=LK(v, f.name))))
            if xs is not None:
                same_set(rep, "opposites", w, xs, [LK(*b) for a, b in sorted(opp) if a == (v, f.name)])
            # every link type check
            for t, _ in e.vs:
                w = W(f"check_link_type({v}.{f.name}, {t})")
                r = G.run(e.name, "check_link_type", ["target", "link"], "NodeEnum", {"target": G.disc(e, t), "link": LK(v, f.name)})
                ok = all(t in allowed[(v, n)] for n in [f.name] + f.groups if (v, n) in allowed)
                link_type(rep, w, r, ok)
        for n in [f.name for f in s.links] + list(gs):
            w = W(f"expand_link_groups({v}.{n})")
            xs = const_items(rep, "links of a group", w, G.run(e.name, "expand_link_groups", ["input"], "NodeEnum", {"input": LG(v, n)}))
            if xs is not None:
                same_set(rep, "links of a group", w, xs, [LK(v, f.name) for f in s.log(n)])
            w = W(f"get_bidiretional_link_mirrors_of_log({v}.{n})")
            xs = const_items(rep, "opposites of a group", w, G.run(e.name, "get_bidiretional_link_mirrors_of_log", ["self", "link"], "NodeEnum", dict(vals, link=LG(v, n))))
            if xs is not None:
                same_set(rep, "opposites of a group", w, xs, [LK(*b) for b in sorted(lopp.get((v, n), ()))], once=False)
            for t, _ in e.vs:
                w = W(f"check_link_type_by_group({v}.{n}, {t})")
                r = G.run(e.name, "check_link_type_by_group", ["target", "link"], "NodeEnum", {"target": G.disc(e, t), "link": LG(v, n)})
                link_type(rep, w, r, (v, n) not in allowed or t in allowed[(v, n)])
        # modify_link reports the opposites
        for f in s.links:
            w = W(f"modify_link({v}.{f.name})")
            r = G.run(e.name, "modify_link", ["self", "source", "old", "new"], "NodeEnum",
                      dict(vals, source=G.wrap(e, v, "SourceEnum", G.source(s, f, mk("param", "ix")))))
            if usable(rep, "opposites", w, r) and r.st is not None:
                d = mod_result(r).get("bd_link_mirrors")
                xs = items(r, d) if d is not None else None
                if xs is None or any(l for l, _, _ in xs):
                    rep.und("opposites", w, "opposites in the result are not understood")
                else:
                    same_set(rep, "opposites", w, [x for _, g, x in xs if g], [LK(*b) for a, b in sorted(opp) if a == (v, f.name)])
        # all of them at once
        w = W(f"get_bidiretional_links on {v}")
        r = G.run(e.name, "get_bidiretional_links", ["self"], "NodeEnum", vals)
        if usable(rep, "all opposites", w, r) and returns(rep, "all opposites", w, r):
            pairs(rep, "all opposites", w, r, G, e, v, s, node, opp, LK)


def link_type(rep, w, r, ok):
    if not usable(rep, "link types", w, r) or not returns(rep, "link types", w, r):
        return
    v = single(r, r.retval())
    if v.op != "agg" or opaque_terms(v):
        rep.und("link types", w, show(v)[:200])
        return
    rep.check((v.a[1] == "Ok") == ok, "link types", w, "is refused although declared" if ok else "is accepted although not declared")


def pairs(rep, rule, w, r, G, e, v, s, node, opp, LK):
    """(targets, opposites) for every link with opposites: all covered, no others"""
    xs = items(r, r.ret)
    if xs is None or any(l or g != 1 for l, g, _ in xs):
        rep.und(rule, w, "the list is not understood")
        return
    got = []
    for _, _, x in xs:
        a, b = r.I.project(x, mk(".f", 0)), r.I.project(x, mk(".f", 1))
        ta, tb = items(r, a), items(r, b)
        if ta is None or tb is None or any(l or g != 1 for l, g, _ in tb):
            rep.und(rule, w, "an entry is not understood")
            return
        got.append((frozenset(nlist(ta)), [z for _, _, z in tb]))
    want = []
    for f in s.links:
        o = [LK(*b) for a, b in sorted(opp) if a == (v, f.name)]
        t = frozenset(nlist(want_links(r.I, node, s, f)))
        want.append((f, t, o))
    msgs = []
    for f, t, o in want:
        hit = [b for a, b in got if a == t]
        if o and not hit:
            msgs.append(f"nothing for {f.name}")
        for b in hit:
            if set(b) != set(o):
                msgs.append(f"opposites of {f.name} are {[show(x) for x in b]}")
    for a, b in got:
        if b and not any(a == t for _, t, _ in want):
            msgs.append("an entry that is no link: " + "; ".join(show(x) for _, _, x in a))
    rep.check(not msgs, rule, w, "; ".join(msgs[:3]))

"""Rule over the self-checks a graph offers: C27."""
from term import mk, BDD, show, subterms
from spec import *
from graphspec import GV
from idspec import cut


def flat(gv, loops, g):
    """the ways g can hold, as [(loops, guard)]: a test for existence opens its loops"""
    out = []
    for cube in BDD.icubes(g):
        pos = [t for t, v in cube if v and t.op == "exists"]
        rest = [(t, v) for t, v in cube if not (v and t.op == "exists")]
        # a loop that did not end early before this round says nothing about this round
        rest = [(t, v) for t, v in rest if not (t.op == "exists" and not v)]
        h = BDD.AND(*[BDD.atom(t) if v else BDD.NOT(BDD.atom(t)) for t, v in rest])
        if len(pos) == 1:
            for ls, k in flat(gv, tuple(loops) + tuple(gv.nt(l) for l in pos[0].a[0]), pos[0].a[1]):
                out.append((ls, BDD.AND(h, k)))
        elif not pos:
            out.append((tuple(loops), h))
        else:
            out.append((tuple(loops), None))
    return out


def fold_rounds(gv, ls, g):
    """a round of a loop over a set that finds one of its elements missing elsewhere: there is such an element"""
    for L in ls:
        X = strip(L.a[0]) if L.op == "loop" else None
        if X is None or X.op != "mget" or strip(X.a[0]) is gv.N or cut(L) is not None or any(L in subterms(k) for k in ls if k is not L):
            continue
        mine = [t for t in BDD.support(g) if L in subterms(t)]
        if len(mine) == 1 and mine[0].op == "has" and mine[0].a[1] in (mk("elem", L), mk("key", L)) and L not in subterms(mine[0].a[0]):
            q = mine[0]
            if BDD.mapatoms(g, lambda a: 1 if a is q else BDD.atom(a)) == 0:
                rest = BDD.mapatoms(g, lambda a: 0 if a is q else BDD.atom(a))
                return fold_rounds(gv, [k for k in ls if k is not L], BDD.AND(rest, BDD.NOT(BDD.atom(mk("prim", "sub", X, q.a[0])))))
    return frozenset(ls), g


def lenof(t):
    return strip(t.a[0]) if t.op == "len" else None


def setrel(gv, g):
    """the different ways to compare two sets, in terms of which holds which"""
    def f(t):
        sub = lambda a, b: BDD.atom(mk("prim", "sub", a, b))
        if t.op == "prim" and t.a[0] in ("is_subset", "is_superset"):
            a, b = gv.nt(t.a[1]), gv.nt(t.a[2])
            return sub(a, b) if t.a[0] == "is_subset" else sub(b, a)
        if t.op == "exists" and len(t.a[0]) == 1:
            L = gv.nt(list(t.a[0])[0])
            h = gv.ng(t.a[1], [L])
            for y in (mk("elem", L), mk("key", L)):
                for q in BDD.support(h):
                    if q.op == "has" and q.a[1] is y and h == BDD.NOT(BDD.atom(q)):
                        return BDD.NOT(sub(strip(L.a[0]), q.a[0]))
        if t.op == "empty" and t.a[0].op == "itkey" and t.a[0].a[0] == "hasfilter":
            a, b = gv.nt(t.a[0].a[1]), gv.nt(t.a[0].a[2])
            return sub(a, b) if not t.a[0].a[3] else BDD.atom(t)
        if t.op == "eq":
            a, b = gv.nt(t.a[0]), gv.nt(t.a[1])
            if a.op == b.op == "mget" and not lenof(a):
                return BDD.AND(sub(a, b), sub(b, a))
        return BDD.atom(t)
    return BDD.mapatoms(g, f)


def setfacts(*gs):
    """what always holds of the comparisons in the guards"""
    out = 1
    sub = lambda a, b: BDD.atom(mk("prim", "sub", a, b))
    atoms = set()
    for g in gs:
        atoms |= set(BDD.support(g))
    pairs = {(t.a[1], t.a[2]) for t in atoms if t.op == "prim" and t.a[0] == "sub"}
    for t in atoms:
        if t.op == "eq" and t.a[0].op == t.a[1].op == "len":
            a, b = t.a[0].a[0], t.a[1].a[0]
            q = BDD.atom(t)
            out = BDD.AND(out, BDD.OR(BDD.NOT(BDD.AND(sub(a, b), sub(b, a))), q),
                          BDD.OR(BDD.NOT(BDD.AND(sub(a, b), q)), sub(b, a)), BDD.OR(BDD.NOT(BDD.AND(sub(b, a), q)), sub(a, b)))
        if t.op == "empty":
            for a, b in pairs:
                if a is t.a[0]:
                    out = BDD.AND(out, BDD.OR(BDD.NOT(BDD.atom(t)), sub(a, b)))
    return out


def panics(gv):
    out = []
    for e in gv.log:
        if e.op == "panic":
            for ls, g in flat(gv, sorted(gv.loops(e), key=lambda l: l.id), setrel(gv, BDD.AND(e.pc, e.assume))):
                if g is None:
                    out.append((e, frozenset(ls), None))
                else:
                    out.append((e, *fold_rounds(gv, ls, gv.ng(setrel(gv, g), ls))))
    return out


def run(ctx, rep, name):
    r = ctx.run("Graph", name, ["self"], tag="dev")
    if r is None:
        rep.und("entry", name, f"{name} not found")
        return None
    rep.used(r)
    gv = GV(r, "self")
    if gv.problem:
        rep.und("entry", r.where, gv.problem)
        return None
    # a self-check is there for graphs that are not as they should be
    gv.kind = "any"
    gv.listed = lambda x: False
    return gv


def single(gv, v):
    """the two halves of the only element of a collection"""
    v = gv.I.as_coll(v)
    if v is None or v.op != "coll" or len(v.a[3]) != 1:
        return None
    k = v.a[3][0]
    if k.a[0] or k.a[1] != 1:
        return None
    return gv.nt(gv.I.project(k.a[2], mk(".f", 0))), gv.nt(gv.I.project(k.a[2], mk(".f", 1)))


def early(others, dom):
    """a panic that looks at the first of the things a loop of the domain goes through, and at no other"""
    over = {strip(l.a[0]) for l in dom}
    for e, ls, g in others:
        if g is not None and ls < dom:
            for t in BDD.support(g):
                for q in subterms(t):
                    if q.op == "prim" and q.a[0] in ("first", "last") and len(q.a) > 1 and strip(q.a[1]) in over:
                        return q
    return None


def odd(ls, g):
    return g is None or opaque_terms(g) or any(opaque_terms(l) for l in ls)


def compare(rep, rule, gv, ps, dom, want, what):
    """the panics in the loops dom happen exactly when want does"""
    w = gv.run.where
    want = gv.ng(want, dom)
    here = [(e, g) for e, ls, g in ps if ls == dom]
    have = BDD.OR(*[g for _, g in here if g is not None]) if here else 0
    for e, g in here:
        if g is None or opaque_terms(g):
            rep.und(rule, loc(e), "condition unclear")
            continue
        ok, cb = implies(BDD.AND(g, setfacts(g, want)), want)
        if ok:
            rep.ok(rule, loc(e))
        elif ok is None:
            rep.und(rule, loc(e), "condition unclear")
        else:
            rep.bad(rule, loc(e), f"panics although {what} (when {show_cube(cb)})")
    others = [(e, ls, g) for e, ls, g in ps if ls != dom]
    ok, cb = implies(BDD.AND(want, setfacts(have, want)), have)
    if ok:
        rep.ok(rule, w)
        return True
    narrow = [cut(l) for e, ls, g in others for l in ls if cut(l) is not None]
    if narrow:
        rep.bad(rule, w, f"only {show(narrow[0])[:200]} is looked at")
    elif early(others, dom):
        rep.bad(rule, w, f"only {show(early(others, dom))[:200]} is looked at")
    elif ok is None or (here and any(g is None or opaque_terms(g) for _, g in here)) or any(odd(ls, g) for e, ls, g in others) or (not here and others):
        rep.und(rule, w, "condition unclear")
    else:
        rep.bad(rule, w, f"does not panic when {show_cube(cb)}")
    return False


def c27(ctx, rep):
    ctx.dump("dev")
    # links that leave the graph
    gv = run(ctx, rep, "check_integrity")
    if gv:
        L1 = mk("loop", gv.N, 0)
        L2 = gv.src_loop(gv.nt(mk("mget", gv.N, mk("key", L1))))
        y = mk("field", mk("elem", L2), 0)
        want = BDD.NOT(BDD.atom(mk("has", gv.N, y)))
        compare(rep, "links-leaving-the-graph-are-found", gv, panics(gv), frozenset([L1, L2]), want, "the target of the link is in the graph")
    # a reverse index that does not match the links
    gv = run(ctx, rep, "check_backlinks")
    if not gv:
        return
    I = gv.I
    w = gv.run.where
    L1 = mk("loop", gv.N, 0)
    x = mk("key", L1)
    L2 = gv.src_loop(gv.nt(mk("mget", gv.N, x)))
    el = mk("elem", L2)
    y, s = mk("field", el, 0), mk("field", el, 1)
    built = {}
    for e in gv.log:
        p = e.path
        if p is not None and e.op != "panic":
            q = p.a[0] if p.op == "at" else p
            if q.op == "new" and q.a[0] == "map":
                built.setdefault(q, []).append(e)
    ps = panics(gv)
    rule = "the-reverse-index-is-compared-with-the-links"
    part = [cut(l) for _, ls, _ in ps for l in ls if cut(l) is not None and any(q in built for q in subterms(cut(l)))]
    if part:
        rep.bad(rule, w, f"only {show(part[0])[:200]} is compared")
        return
    used = [M for M in built if any(any(t.op == "loop" and strip(t.a[0]) is M for t in ls) for _, ls, _ in ps)]
    if len(used) != 1:
        if not ps and not I.unknown:
            rep.bad(rule, w, "never panics")
        elif not any(any(q is gv.B for q in subterms(t)) for _, _, g in ps if g is not None for t in BDD.support(g)) and not any(odd(ls, g) for _, ls, g in ps):
            rep.bad(rule, w, "no panic depends on the reverse index")
        elif len(built) < 2 and all(ls == frozenset([L1, L2]) and g is not None and all(t.op == "has" for t in BDD.support(g)) and not odd(ls, g) for _, ls, g in ps):
            rep.bad(rule, w, "a recorded link that no node has is never noticed")
        else:
            rep.und(rule, w, "the index the links should have is not recognised")
        return
    M = used[0]
    # what the index should be
    rule = "the-expected-index-is-built-from-all-links"
    nodes, links, fine = 0, 0, True
    for e in built[M]:
        ls = gv.loops(e)
        if any(cut(l) is not None for l in ls):
            rep.bad(rule, loc(e), f"built from only {show([cut(l) for l in ls if cut(l) is not None][0])[:200]}")
            fine = False
            continue
        g = gv.ng(BDD.AND(e.pc, e.assume), ls)
        a = gv.nt(e.args[0]) if e.args else None
        has = lambda k: BDD.atom(mk("has", M, k))
        if e.op in ("ensure", "ins", "set") and e.path is M and ls == frozenset([L1]) and a is x:
            nodes = BDD.OR(nodes, g, has(x))
        elif e.op == "ensure" and e.path is M and ls == frozenset([L1, L2]) and a is y:
            pass
        elif e.op == "ins" and e.path is M and ls == frozenset([L1, L2]) and a is y and len(e.args) > 1 and single(gv, e.args[1]) is not None \
                and single(gv, e.args[1])[0] is x and single(gv, e.args[1])[1] is s and implies(g, BDD.NOT(has(y)))[0]:
            links = BDD.OR(links, g)
        elif e.op == "ins" and e.path.op == "at" and ls == frozenset([L1, L2]) and gv.nt(e.path.a[1]) is y \
                and gv.nt(I.project(e.args[0], mk(".f", 0))) is x and gv.nt(I.project(e.args[0], mk(".f", 1))) is s:
            links = BDD.OR(links, g)
        else:
            fine = False
            if e.op in ("ins", "rem", "clear") and not opaque_terms(*[t for t in e.args if hasattr(t, "op")], *ls) and ls <= frozenset([L1, L2]) and not opaque_terms(g):
                rep.bad(rule, loc(e), f"the expected index gets {e.op}({', '.join(show(gv.nt(t)) for t in e.args if hasattr(t, 'op'))[:200]})")
            else:
                rep.und(rule, loc(e), f"{e.op} {show(e.path)}")
    if fine:
        # the walk is over when one of the earlier checks fails
        going = BDD.AND(*[BDD.NOT(g) for _, ls, g in ps if g is not None and ls == frozenset([L1, L2])])
        for what, h in (("node", nodes), ("link", links)):
            ok, cb = implies(going, h)
            if ok:
                rep.ok(rule, w)
            elif opaque_terms(h) or ok is None:
                rep.und(rule, w, f"every {what}: unclear")
            else:
                rep.bad(rule, w, f"not every {what} is in the expected index: not when {show_cube(cb)}")
    # and where it is compared
    rule = "the-reverse-index-is-compared-with-the-links"
    LM = mk("loop", M, 0)
    k = mk("key", LM)
    a, b = gv.nt(mk("mget", M, k)), gv.nt(mk("mget", gv.B, k))
    same = BDD.AND(BDD.atom(mk("has", gv.B, k)), BDD.atom(mk("prim", "sub", a, b)), BDD.atom(mk("prim", "sub", b, a)))
    rest = [p for p in ps if p[1] != frozenset([L1, L2])]
    compare(rep, rule, gv, rest, frozenset([LM]), BDD.NOT(same), "the recorded links are right")
    for e, ls, g in ps:
        if ls == frozenset([L1, L2]):
            if g is None or opaque_terms(g):
                rep.und(rule, loc(e), "condition unclear")
                continue
            # a panic inside the loop over the links must mean that this link is not recorded
            bad = [c for c in BDD.icubes(g) if not any((not v) and t.op == "has" and any(q is gv.B for q in subterms(t.a[0])) for t, v in c)]
            rep.check(not bad, rule, loc(e), f"panics although the link is recorded (when {show_cube(bad[0]) if bad else ''})")

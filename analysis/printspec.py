"""Rule over the printed forms of graphs, transactions and indices: C28."""
from term import mk, BDD, show, subterms
from spec import *
from graphspec import GV, trans_roles
from idspec import cut


def plain(t):
    """the term names a part of what is printed, not a text or collection made from it"""
    return t.op == "c" or not any(q.op in ("coll", "new", "loopval", "havoc", "place", "ref") or q.op == "prim" and str(q.a[0]).split("::")[-1] in
                                  ("text", "fmt", "fmtargs", "fmtarg", "builder", "to_string", "concat", "join", "push_str") for q in subterms(t))


def pieces(args):
    """the values written by one effect, those inside of a text included"""
    out = []
    for a in args:
        v = a.a[2] if a.op == "prim" and a.a[0] == "fmtarg" else a
        if v.op == "prim" and v.a[0] in ("text", "fmtargs"):
            out += pieces(v.a[1:])
        else:
            out.append(v)
    return out


def writes(t):
    """the writes whose failure an atom tells"""
    return {q for q in subterms(t) if q.op == "prim" and q.a[0] == "fmt"}


def failing(t, ids):
    """the atom once exactly these writes failed; None when that is not known"""
    if not writes(t):
        return None
    hit = 1 if writes(t) & ids else 0
    if t.op == "isv" and t.a[0].op == "prim":
        return 1 - hit if t.a[1] == "Ok" else hit if t.a[1] == "Err" else None
    if t.op == "exists":
        return hit
    return None


def written(t):
    """an atom as it is when nothing failed to be written"""
    v = failing(t, frozenset())
    return BDD.atom(t) if v is None else v


def shown(gv_nt, r, loops, ng=lambda g, ls: g):
    """[(event, loops, guard, values)]; the guards hold as long as nothing fails to be written"""
    out = []
    for e in r.log:
        if e.op == "print":
            g = BDD.mapatoms(BDD.AND(e.pc, e.assume), written)
            g = ng(g, loops(e))
            vals = [gv_nt(v) for v in pieces(e.args)]
            out.append((e, frozenset(loops(e)), g, vals))
    return out


def unclear(ps, known):
    """some of what is printed is not understood"""
    return any(any(q.op in ("phi", "loopval", "havoc") or q.op == "prim" and q.a[0] == "fmt" for t in BDD.support(g) for q in subterms(t)) or any(opaque_terms(a) for a in e.args) or not all(plain(v) for v in pieces(e.args)) or opaque_terms(g) or any(opaque_terms(l) for l in ls)
               or any(l not in known and cut(l) is None for l in ls) for e, ls, g, vs in ps)


def covered(ps, at, val):
    g = 0
    for e, ls, h, vs in ps:
        if ls == at and any(v is val or v.op in ("nf", "field") and v.a[0] is val for v in vs):
            g = BDD.OR(g, h)
    return g


def need(rep, rule, w, ps, known, places, what, unknown):
    """one of the places [(loops, values)] shows all its values, always"""
    best = None
    for at, vals in places:
        g = BDD.AND(*[covered(ps, at, v) for v in vals])
        ok, cb = implies(1, g)
        if ok:
            rep.ok(rule, w)
            return
        if best is None or g != 0:
            best = cb
    part = [cut(l) for e, ls, g, vs in ps for l in ls if cut(l) is not None]
    if part:
        rep.bad(rule, w, f"only {show(part[0])[:200]} is printed")
    elif unknown or unclear(ps, known):
        rep.und(rule, w, f"{what}: unclear")
    else:
        rep.bad(rule, w, f"{what} not printed when {show_cube(best)}")


def reports_failure(rep, r):
    rule = "a-failing-write-is-reported"
    v = r.retval()
    if v is None or r.I.unknown:
        rep.und(rule, r.where, "result unclear")
        return
    g = r.I.is_variant(v, r.I.variants("core::result::Result"), "Ok")
    for e in r.log:
        if e.op != "print" or e.extra is None or not writes(e.extra) or e.extra.a[1].a[0] == "s:":
            continue
        ids = {e.extra}
        h = BDD.AND(g, e.pc)
        odd = [t for t in BDD.support(h) if writes(t) and failing(t, ids) is None]
        h = BDD.mapatoms(h, lambda t: BDD.atom(t) if failing(t, ids) is None else failing(t, ids))
        if h == 0:
            rep.ok(rule, loc(e))
        elif odd or opaque_terms(h) or any(q.op in ("phi", "loopval", "havoc") for t in BDD.support(h) for q in subterms(t)):
            rep.und(rule, loc(e), "result unclear")
        else:
            rep.bad(rule, loc(e), "the result is Ok although this write failed")


def graph(ctx, rep, tr):
    r = ctx.run("Graph", "fmt", ["self", "f"], trait=tr)
    if r is None:
        rep.und("entry", tr, f"{tr} of Graph not found")
        return
    rep.used(r)
    gv = GV(r, "self")
    if gv.N is None:
        rep.und("entry", r.where, gv.problem)
        return
    w = r.where
    unknown = bool(r.I.unknown)
    ps = shown(gv.nt, r, gv.loops, gv.ng)
    LN, LB = mk("loop", gv.N, 0), mk("loop", gv.B, 0)
    known = {LN, LB}
    at, k = frozenset([LN]), mk("key", LN)
    n = gv.nt(mk("mget", gv.N, k))
    rule = "every-node-is-printed-under-its-index"
    need(rep, rule, w, ps, known, [(at, [k, n]), (frozenset(), [gv.N])], "a node with its index", unknown)
    rule = "no-node-is-printed-twice"
    mine = [(e, g) for e, ls, g, vs in ps if ls == at and n in vs]
    for i, (e, g) in enumerate(mine):
        over = [h for _, h in mine[i + 1:] if BDD.AND(g, h)]
        rep.check(not over, rule, loc(e), "the node is printed again")
    if tr == "Debug":
        need(rep, "the-context-is-printed", w, ps, known, [(frozenset(), [gv.C])], "the identity of the context", unknown)
        kb = mk("key", LB)
        need(rep, "recorded-links-are-printed-under-their-target", w, ps, known,
             [(frozenset([LB]), [kb, gv.nt(mk("mget", gv.B, kb))]), (frozenset(), [gv.B]), (at, [k, gv.nt(mk("mget", gv.B, k))])],
             "the recorded links", unknown)
    reports_failure(rep, r)


def index(ctx, rep):
    r = ctx.run("NodeIndex", "fmt", ["self", "f"], trait="Display")
    rule = "an-index-is-printed-as-its-number"
    if r is None or r.error or r.st is None:
        rep.und(rule, "NodeIndex", "Display of NodeIndex not found")
        return
    rep.used(r)
    ps = shown(lambda t: strip(t), r, lambda e: [l for l, _ in e.loops])
    emp = ctx.run("NodeIndex", "is_empty", ["self"])
    if emp is None or emp.error or emp.retval() is None or r.I.unknown or unclear(ps, ()):
        rep.und(rule, r.where, "form unclear")
        return
    e0 = normg(emp.I.bdd(emp.retval()))
    me = mk("param", "self")
    own = BDD.OR(0, *[normg(g) for e, ls, g, vs in ps if any(me in subterms(v) for v in vs)])
    some = BDD.OR(0, *[normg(g) for e, ls, g, vs in ps])
    if opaque_terms(own) or opaque_terms(some):
        rep.und(rule, r.where, "form unclear")
        return
    ok, cb = implies(BDD.NOT(e0), own)
    rep.check(ok, rule, r.where, f"the number is not printed when {show_cube(cb) if cb else ''}")
    rep.check(BDD.AND(e0, own) == 0, rule, r.where, "the empty index is printed like that of a node")
    rep.check(implies(e0, some)[0], rule, r.where, "nothing is printed for the empty index")


NAMES = {"INC": "the pending nodes", "ALLOC": "the unfilled allocations", "DEC": "the removals", "MU": "the mutations", "UP": "the updates",
         "RL": "the redirects", "RA": "the redirects of all links", "C": "the identity of the context"}


def from_field(v, p):
    """v shows what the field p holds: True, False (not at all) or None (unclear)"""
    v0 = strip(v)
    if v0 is p:
        return True
    if p not in subterms(v) and not (v.op == "coll" and v.a[3] and any(p in subterms(c) for c in v.a[3])):
        return False
    if v.op == "coll" and v.a[3] and len(v.a[3]) == 1:
        c = v.a[3][0]
        ls = list(c.a[0])
        if len(ls) == 1 and c.a[1] == 1:
            return True if strip(ls[0].a[0]) is p else False if cut(ls[0]) is not None else None
    return None


def trans(ctx, rep):
    r = ctx.run("Transaction", "fmt", ["self", "f"], trait="Debug")
    rule = "everything-pending-is-printed"
    if r is None or r.error or r.st is None:
        rep.und(rule, "Transaction", "Debug of Transaction not found")
        return
    rep.used(r)
    roles = trans_roles(ctx, rep)
    if roles is None:
        return
    me = mk("param", "self")
    ps = []
    for e in r.log:
        if e.op == "print":
            g = BDD.mapatoms(BDD.AND(e.pc, e.assume), written)
            ps.append((e, [strip(l) for l, _ in e.loops], g, pieces(e.args)))
    for k, what in NAMES.items():
        p = roles.get(k)
        if p is None:
            continue
        g, maybe = 0, False
        for e, ls, h, vs in ps:
            for v in vs:
                f = from_field(v, p) if not ls else (True if len(ls) == 1 and strip(ls[0].a[0]) is p and any(l in subterms(v) for l in ls) else None if any(p in subterms(l) for l in ls) else False)
                if f:
                    g = BDD.OR(g, h)
                maybe = maybe or f is None
        ok, cb = implies(1, g)
        if ok:
            rep.ok(rule, r.where)
        elif maybe or r.I.unknown or opaque_terms(g) or any(opaque_terms(a) for e, _, _, _ in ps for a in e.args if strip(a) is not a):
            rep.und(rule, r.where, f"{what}: unclear")
        else:
            rep.bad(rule, r.where, f"{what} are not printed when {show_cube(cb)}")
    # a label that names another of the parts
    rule = "parts-are-printed-under-their-own-names"
    named = {}
    from graphspec import adt_named
    P = ctx.prog()
    t = adt_named(P, "Transaction")
    fields = [f["n"] for f in t["vs"][0]["f"]]
    short = lambda s: s[:-4] if s.endswith("_vec") else s
    for e, ls, h, vs in ps:
        if e.extra is None or not hasattr(e.extra, "op") or e.extra.op != "c" or len(vs) != 1:
            continue
        lab = str(e.extra.a[0])
        lab = lab[2:] if lab.startswith("s:") else lab
        mine = [f for i, f in enumerate(fields) if from_field(vs[0], mk("field", me, i))]
        other = [f for f in fields if short(f) == short(lab)]
        if mine and other:
            rep.check(any(f in mine for f in other), rule, loc(e), f"{mine[0]} is printed as {lab}")


def c28(ctx, rep):
    graph(ctx, rep, "Display")
    graph(ctx, rep, "Debug")
    index(ctx, rep)
    trans(ctx, rep)

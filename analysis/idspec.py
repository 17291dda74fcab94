"""Rules over index allocation and contexts: C01."""
from term import mk, BDD, show, subterms
import engine as E
from engine import strip
import refspec
from spec import *
import graphspec as G
import genspec as W
import arenaspec as A

RMW = {"fetch_add"}
READ = {"load"}


def progression(t):
    """t = (value before an atomic increment by k) + c  ->  (cell, k, c)"""
    cst = 0
    if t.op == "sum":
        rest = [x for x in t.a if x.op != "c"]
        cst = sum(x.a[0] for x in t.a if x.op == "c" and isinstance(x.a[0], int))
        if len(rest) != 1:
            return None
        t = rest[0]
    if t.op == "fetched" and t.a[0] in RMW and t.a[4].op == "c":
        return t.a[3], t.a[4].a[0], cst
    return None


def start_of(v):
    """initial count of a distributer value: (term) or None"""
    for s in subterms(v):
        if s.op == "atomic":
            return s.a[0]
    return None


def shared(v):
    return any(s.op == "arc" for s in subterms(v))


def recycled(S, ix, v):
    """the container of the store the index may be taken from, if removal puts its index there"""
    places = set()
    for s in subterms(ix):
        if s.op in ("elem", "key", "mget") or s.op == "prim" and isinstance(s.a[0], str) and s.a[0].startswith(("peek", "pop")):
            places |= {strip(x) for x in subterms(s) if x.op == "field" and root_is(x, "self")}
    if not places:
        return None
    for w in S.vs[:1]:
        r = S.run("remove", ["self", "i"], None, ("holds", w))
        if r is None or r.error or r.st is None:
            return None
        for e in r.log:
            if e.op in ("push", "ins") and e.path is not None and strip(e.path) in places and any(s is mk("param", "i") for a in e.args if hasattr(a, "op") for s in subterms(a)):
                return strip(e.path)
    return None


def root_is(p, n):
    while p.op in ("field", "nf"):
        p = p.a[0]
    return p is mk("param", n)


def c01(ctx, rep):
    P = ctx.prog()
    refspec.good(ctx, rep, "C01")
    # one counter, shared, stepped atomically
    rule = "indices-come-from-one-shared-atomic-counter"
    run = ctx.run("IdDistributer", "alloc", ["self"])
    prog = None
    if run is None or run.error or run.st is None:
        rep.und(rule, "IdDistributer::alloc", "not analysed")
    else:
        rep.used(run)
        w = run.where
        evs = [e for e in run.log if e.op == "atomic"]
        prog = progression(run.retval())
        if prog is None:
            kinds = {e.extra for e in evs}
            v = run.retval()
            if evs and kinds <= {"load", "store"} and not run.I.unknown:
                rep.bad(rule, w, f"the counter is read and written in separate steps ({', '.join(sorted(kinds))}), two threads can get the same index")
                prog = None
            elif not evs and not run.I.unknown and not opaque_terms(v):
                rep.bad(rule, w, f"the index {show(v)} does not come from the counter")
            elif v.op == "c":
                rep.bad(rule, w, f"the index is always {show(v)}")
            elif any(s.op == "trunc" for s in subterms(v)) and not run.I.unknown:
                rep.bad(rule, w, f"the index is {show(v)}: the counter is cut to fewer bits, so indices repeat")
            elif any(s.op == "fetched" and s.a[0] != "fetch_add" for s in subterms(v)) and not run.I.unknown:
                rep.bad(rule, w, f"the index is {show(v)}")
            else:
                rep.und(rule, w, f"the index is {show(v)[:300]}")
        else:
            cell, k, cst = prog
            rep.check(k >= 1, rule, w, f"the counter is stepped by {k}")
            other = [e for e in evs if e.extra not in RMW | READ]
            rep.check(not other, rule, w, f"the counter is also changed by {other[0].extra if other else ''} at {loc(other[0]) if other else ''}")
            rep.check(strip(cell) is strip(evs[0].path), rule, w, f"the index is taken from {show(cell)}")
            bad = [e for e in run.log if e.op == "panic"]
            rep.check(not bad, rule, w, "allocation may panic")
    # starts
    rule = "the-empty-index-is-never-handed-out"
    cst = prog[2] if prog else None
    for m, names, tr in (("new", [], None), ("default", [], "Default")):
        r = ctx.run("IdDistributer", m, names, tr)
        if r is None or r.error or r.st is None:
            rep.und(rule, f"IdDistributer::{m}", "not analysed")
            continue
        rep.used(r)
        s = start_of(r.retval())
        if s is None or cst is None or s.op != "c":
            if s is not None and s.op == "c" and cst is None:
                rep.und(rule, r.where, "allocation not understood")
            else:
                rep.und(rule, r.where, f"starts at {show(s) if s else show(r.retval())[:200]}")
            continue
        rep.check(s.a[0] + cst >= 1, rule, r.where, f"the first index is {s.a[0] + cst}, the empty index")
        rep.check(shared(r.retval()), rule, r.where, "the counter cannot be shared")
    # clones share
    rule = "clones-share-the-counter"
    for t in ("IdDistributer", "Context"):
        r = ctx.run(t, "clone", ["self"], "Clone")
        if r is None or r.error or r.st is None:
            rep.und(rule, f"{t}::clone", "not analysed")
            continue
        rep.used(r)
        v = strip(r.retval())
        if v is mk("param", "self"):
            rep.ok(rule, r.where)
        elif r.I.unknown or opaque_terms(v) and not any(s.op in ("atomic", "fresh") for s in subterms(v)):
            rep.und(rule, r.where, f"a clone is {show(v)[:200]}")
        else:
            rep.bad(rule, r.where, f"a clone is {show(v)[:200]}: it does not keep identity and counter of the original")
    # contexts
    rule = "contexts-created-separately-differ"
    ctxp = None
    a = adt_named(P, "Context")
    fp = {}
    for p, f in fields_deep(P, a):
        ty = P.ty(a["crate"], f["t"])
        if ty["k"] == "adt" and ty["n"].split("::")[-1] in ("Uuid", "IdDistributer"):
            fp.setdefault(ty["n"].split("::")[-1], p)
    if set(fp) != {"Uuid", "IdDistributer"}:
        rep.und(rule, "Context", "fields not recognised")
        return
    for m, tr in (("new", None), ("default", "Default")):
        r = ctx.run("Context", m, [], tr)
        if r is None or r.error or r.st is None:
            rep.und(rule, f"Context::{m}", "not analysed")
            continue
        rep.used(r)
        v = r.retval()
        g = find_agg(v, "Context")
        if g is None:
            rep.und(rule, r.where, show(v)[:200])
            continue
        u = agg_path(r.I, g, fp["Uuid"])
        if u.op == "fresh" and u.a[0] == "uuid":
            rep.ok(rule, r.where)
        elif opaque_terms(u) and not (u.op == "prim" and any(x in show(u) for x in ("nil", "max", "from_u128", "default", "Default"))):
            rep.und(rule, r.where, f"the identity is {show(u)[:200]}")
        else:
            rep.bad(rule, r.where, f"the identity of a context is {show(u)[:200]}, not a fresh one")
        d = agg_path(r.I, g, fp["IdDistributer"])
        s = start_of(d)
        if not shared(d) or s is None or s.op != "c" or cst is None:
            rep.und(rule, r.where, f"the counter is {show(d)[:200]}")
        else:
            rep.check(s.a[0] + cst >= 1, "the-empty-index-is-never-handed-out", r.where, f"the first index is {s.a[0] + cst}")
    # everything built for a context uses its counter
    rule = "everything-in-a-context-uses-its-counter"

    def dist(I, name):
        return path_term(I, mk("param", name), fp["IdDistributer"])

    def ident(I, name):
        return path_term(I, mk("param", name), fp["Uuid"])
    seen = set()
    for t, m, names, c in (("Graph", "new", ["context"], "context"), ("Transaction", "new", ["context"], "context"),
                           ("Graph", "switch_context", ["self", "new_ctx"], "new_ctx")):
        r = ctx.run(t, m, names)
        if r is None or r.error or r.st is None or r.I.unknown:
            rep.und(rule, f"{t}::{m}", "not analysed")
            continue
        rep.used(r)
        seen |= set(r.I.fn_seen)
        evs = [e for e in r.log if e.op == "arena_new"]
        if not evs:
            rep.und(rule, r.where, "no store is built")
        for e in evs:
            d = strip(e.args[0])
            same(rep, rule, r.where, d, strip(dist(r.I, c)), f"a store built at {loc(e)} takes its indices from")
        g = find_agg(r.retval(), t)
        if g is None:
            rep.und(rule, r.where, "result not recognised")
        else:
            cp = graph_roles(P).get("C") if t == "Graph" else None
            if t == "Transaction":
                roles = G.trans_roles(ctx, rep)
                if roles and "C" in roles:
                    cp = []
                    x = roles["C"]
                    while x.op == "field":
                        cp.insert(0, x.a[1])
                        x = x.a[0]
            if cp is not None:
                same(rep, rule, r.where, strip(agg_path(r.I, g, cp)), strip(ident(r.I, c)), "its context identity is")
    # new nodes get a new index
    rule = "every-new-node-gets-a-new-index"
    for S in A.stores(ctx):
        if not S.roles(rep, "store-layout"):
            continue
        if S.dist is None:
            rep.und(rule, S.name, "no source of indices in the store")
            continue
        own = S.field(S.dist)
        for m in ("alloc", "insert", "alloc_untyped"):
            for v in S.vs if m != "alloc_untyped" else S.vs[:1]:
                vals = {"alloc": {"d": S.d(v)}, "insert": {"item": S.item(v)}, "alloc_untyped": {}}[m]
                names = {"alloc": ["self", "d"], "insert": ["self", "item"], "alloc_untyped": ["self"]}[m]
                r = S.run(m, names, vals)
                w = S.where(m, v if m != "alloc_untyped" else "")
                if not W.usable(rep, rule, w, r) or not W.returns(rep, rule, w, r):
                    continue
                ix = r.I.project(r.retval(), mk(".n"))
                pr = progression(ix)
                if pr is None:
                    again = recycled(S, ix, v)
                    if again:
                        rep.bad(rule, w, f"the index may be {show(again)}, where removed indices are put")
                    elif prog is None or opaque_terms(ix) or r.I.unknown or ix.op == "choice":
                        rep.und(rule, w, f"the index is {show(ix)[:200]}")
                    else:
                        rep.bad(rule, w, f"the index {show(ix)[:200]} is not a newly allocated one")
                    continue
                if not any(s is own for s in subterms(strip(pr[0]))):
                    rep.bad(rule, w, f"the index is taken from {show(pr[0])[:200]}, not from the source of indices of the store")
                    continue
                if prog and pr[2] != prog[2]:
                    rep.bad(rule, w, f"the index is {show(ix)}, but the counter hands out {prog[2]:+d}")
                    continue
                rep.ok(rule, w)
        # no operation replaces the source of indices
        for m, names, vals in (("alloc", ["self", "d"], {"d": S.d(S.vs[0])}), ("alloc_untyped", ["self"], {}), ("insert", ["self", "item"], {"item": S.item(S.vs[0])}),
                               ("merge", ["self", "other"], {})):
            r = S.run(m, names, vals)
            w = S.where(m)
            if not W.usable(rep, rule, w, r) or r.st is None:
                continue
            d = strip(r.I.project(W.final(r), mk(".f", S.dist)))
            keep = d is own or any(x.op == "atomic" for x in r.log) and not any(e.path is own or e.path is mk("param", "self") for e in r.log if e.op == "assign")
            if keep:
                rep.ok(rule, w)
            elif m == "merge" and d is mk("field", mk("param", "other"), S.dist):
                rep.ok(rule, w)     # merged stores are of one context
            elif opaque_terms(d):
                rep.und(rule, w, f"the source of indices becomes {show(d)[:200]}")
            else:
                rep.bad(rule, w, f"the source of indices becomes {show(d)[:200]}")
    # deserialisation continues after the largest index
    rule = "a-rebuilt-context-continues-after-the-largest-index"
    r = ctx.run_fn("deserialize_graph", ["input"])
    if r is None or r.error or r.st is None or r.I.unknown:
        rep.und(rule, "deserialize_graph", "not analysed")
        return
    rep.used(r)
    w = r.where
    g, cx = find_agg(r.retval(), "Graph"), find_agg(r.retval(), "Context")
    if g is None or cx is None:
        rep.und(rule, w, "result not recognised")
        return
    d = strip(agg_path(r.I, cx, fp["IdDistributer"]))
    for e in r.log:
        if e.op == "arena_new":
            same(rep, rule, w, strip(e.args[0]), d, "the rebuilt graph takes its indices from")
    gp = graph_roles(P)
    if "C" in gp:
        same(rep, rule, w, strip(agg_path(r.I, g, gp["C"])), strip(agg_path(r.I, cx, fp["Uuid"])), "the rebuilt graph has the identity")
    s = start_of(d)
    if s is None or cst is None:
        rep.und(rule, w, f"the counter is {show(d)[:200]}")
        return
    for gd, t in spread(s):
        judge_start(rep, rule, w, r, gd, t, cst)


def spread(t):
    """t as [(guard, alternative)], with offsets by constants inside the alternatives and additions as sums"""
    def add(x, k):
        cs, k = [], k
        for y in (x.a if x.op == "sum" else (x,)):
            if y.op == "c" and isinstance(y.a[0], int):
                k += y.a[0]
            else:
                cs.append(y)
        if not cs:
            return E.c(k)
        return mk("sum", *cs, E.c(k)) if k else cs[0] if len(cs) == 1 else mk("sum", *cs)

    def num(x):
        return x.a[0] if x.op == "c" and isinstance(x.a[0], int) else None
    if t.op == "choice":
        return [(BDD.AND(g, h), y) for g, x in t.a[0] for h, y in spread(x)]
    if t.op == "sum":
        ch = [x for x in t.a if num(x) is None]
        if len(ch) == 1:
            k = sum(num(x) for x in t.a if num(x) is not None)
            return [(g, add(x, k)) for g, x in spread(ch[0])]
    if t.op == "bin" and t.a[0] in ("Sub", "Add") and num(t.a[2]) is not None:
        k = num(t.a[2]) * (-1 if t.a[0] == "Sub" else 1)
        return [(g, add(x, k)) for g, x in spread(t.a[1])]
    if t.op == "prim" and t.a[0] in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add") and len(t.a) == 3 and num(t.a[2]) is not None:
        k = num(t.a[2]) * (-1 if "sub" in t.a[0] else 1)
        return [(g, E.c(max(num(x) + k, 0)) if num(x) is not None else add(x, k)) for g, x in spread(t.a[1])]
    return [(1, t)]


def cut(L):
    """the loop goes over a fixed cut of a sequence: that iterator, else None"""
    for x in subterms(L):
        if x.op == "itkey" and x.a[0] == "partial" and x.a[1] in ("take", "skip", "step_by", "nth") \
                and isinstance(x.a[3], tuple) and all(y.op == "c" for y in x.a[3]):
            return x
    return None


def same(rep, rule, w, got, want, what):
    if got is want:
        rep.ok(rule, w)
    elif opaque_terms(got) or got.op == "choice":
        rep.und(rule, w, f"{what} {show(got)[:200]}")
    else:
        rep.bad(rule, w, f"{what} {show(got)[:200]} instead of {show(want)[:200]}")


def fold(t):
    """t as ("max" or "min", loop source, initial value, value compared) when it is a loop keeping the extreme value"""
    if t.op != "loopval" or len(t.a) != 3:
        return None
    L, init, step = t.a
    phi = lambda x: x.op == "phi"
    if step.op == "prim" and step.a[0] in ("max", "min") and len(step.a) == 3 and sum(map(phi, step.a[1:])) == 1:
        kind, v = step.a[0], next(x for x in step.a[1:] if not phi(x))
    elif step.op == "choice" and len(step.a[0]) == 2 and sum(phi(x) for _, x in step.a[0]) == 1:
        g, v = next((g, x) for g, x in step.a[0] if not phi(x))
        at = list(BDD.support(g))
        if len(at) != 1 or at[0].op not in ("lt", "le") or len(at[0].a) != 2:
            return None
        a, b = at[0].a
        if not (phi(a) and b is v or phi(b) and a is v):
            return None
        # g says the value is taken when it is the greater (or the smaller) one
        kind = "max" if phi(a) == (g is BDD.atom(at[0]) or g == BDD.atom(at[0])) else "min"
    else:
        return None
    if any(phi(x) for x in subterms(v)):
        return None
    return kind, L, init, v


def judge_start(rep, rule, w, r, gd, t, cst):
    """under gd the counter starts at t; the next index is t + cst and must exceed every loaded one"""
    k = 0
    u = t
    if u.op == "sum":
        rest = [x for x in u.a if x.op != "c"]
        k = sum(x.a[0] for x in u.a if x.op == "c")
        u = rest[0] if len(rest) == 1 else u if rest else E.c(0)
    f = fold(u)
    if f:
        kind, L, init, v = f
        if kind == "min":
            rep.bad(rule, w, f"the counter starts at {show(t)[:300]}, the smallest instead of the largest loaded index")
            return
        known = init.op == "c" or init.op == "len"
        if not known and cut(L) is not None or init.op == "c" and not isinstance(init.a[0], int):
            rep.und(rule, w, f"starts at {show(t)[:300]}")
            return
        if init.op == "c" and init.a[0] + k + cst < 1:
            rep.bad(rule, w, f"without nodes the first index is {init.a[0] + k + cst}")
            return
        u = mk("prim", "max", mk("agg_of", (mk("ctr", (L,), 1, v),)))
    if u.op == "c":
        # a constant only does when nothing is loaded
        ok = any(a.op == "empty" for a in BDD.support(gd)) and BDD.AND(gd, *[BDD.NOT(BDD.atom(a)) for a in BDD.support(gd) if a.op == "empty"]) == 0
        if ok:
            rep.check(u.a[0] + k + cst >= 1, rule, w, f"without nodes the first index is {u.a[0] + k + cst}")
        elif opaque_terms(gd):
            rep.und(rule, w, f"starts at {show(t)} when {BDD.show(gd)[:200]}")
        else:
            rep.bad(rule, w, f"the counter starts at {show(t)} when {BDD.show(gd)[:200]}, whatever was loaded")
        return
    if u.op == "prim" and u.a[0] in ("max", "min", "last", "first", "count", "len") and len(u.a) > 1 and u.a[1].op == "agg_of":
        cs = u.a[1].a[0]
        good = u.a[0] == "max" and len(cs) == 1 and len(cs[0].a[0]) == 1 and cs[0].a[1] == 1
        pc = next((x for q in cs for l in q.a[0] for x in (cut(l),) if x), None)
        if pc is not None and u.a[0] == "max":
            rep.bad(rule, w, f"the counter starts at the largest of only {show(pc)[:200]}")
            return
        if any(x.op == "itkey" and x.a[0] in ("partial", "rest") for q in cs for l in q.a[0] for x in subterms(l)):
            rep.und(rule, w, f"starts at {show(t)[:300]}")
            return
        if good:
            L = cs[0].a[0][0]
            el = strip(mk("elem", L))
            val = strip(cs[0].a[2])
            kk = k
            if val.op == "sum":
                kk += sum(x.a[0] for x in val.a if x.op == "c")
                rest = [x for x in val.a if x.op != "c"]
                val = rest[0] if len(rest) == 1 else val
            good = val is mk("nf", mk("field", el, 0)) and any(x is mk("param", "input") for x in subterms(L)) and not r.I.loop_info.get(0)
            if good:
                rep.check(kk + cst >= 1, rule, w, f"the next index is the largest loaded one {kk + cst:+d}")
                return
        if opaque_terms(u):
            rep.und(rule, w, f"starts at {show(t)[:300]}")
        else:
            rep.bad(rule, w, f"the counter starts at {show(t)[:300]}, which some loaded index may exceed")
        return
    known = u.op in ("len", "param", "field", "nf", "mget") or (u.op == "prim" and u.a[0] in ("min", "last", "first", "count", "len"))
    odd = any(x.op == "prim" and x.a[0] not in ("min", "last", "first", "count", "len") for x in subterms(u))
    if opaque_terms(u) or odd or not known:
        rep.und(rule, w, f"starts at {show(t)[:300]}")
    else:
        rep.bad(rule, w, f"the counter starts at {show(t)[:300]}, which some loaded index may exceed")

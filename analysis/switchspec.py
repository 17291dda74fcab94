"""Rule over switching contexts and merging graphs: C19."""
from term import mk, BDD, show, subterms, rewrite
import engine as E
from engine import strip
from spec import *
from graphspec import GV, atom, trans_roles, is_empty_idx
import genspec as W
import arenaspec as A
import transspec as X

VX, VY, VS = mk("param", "x#"), mk("param", "y#"), mk("param", "s#")


def c19(ctx, rep, tag="default"):
    switch(ctx, rep, tag)
    roles = trans_roles(ctx, rep, tag)
    if roles:
        X.merges(ctx, rep, roles, "merging-a-graph-adds-all-its-nodes", tag)
    if tag == "default":
        for S in A.stores(ctx):
            if S.roles(rep, "store-layout"):
                A.merge_moves(rep, S, "merging-stores-moves-every-node")


def switch(ctx, rep, tag):
    rule = "every-node-gets-one-fresh-index"
    r = ctx.run("Graph", "switch_context", ["self", "new_ctx"], tag=tag)
    if r is None or r.error or r.st is None:
        rep.und(rule, "Graph::switch_context", "not analysed")
        return
    gv = GV(r, "ret")
    w = r.where
    rep.used(r)
    if gv.problem:
        rep.und(rule, w, gv.problem)
        return
    I = r.I
    gr = graph_roles(r.P)
    s = mk("param", "self")
    N0, B0 = path_term(I, s, gr["N"]), path_term(I, s, gr["B"])
    # 1. every node of the old graph is inserted once, under a fresh index
    ins = [e for e in gv.log if e.op in ("a.insert", "a.fill_back", "a.fill_back_untyped", "a.alloc", "a.alloc_untyped", "ins") and e.path is not None
           and (e.path.op == "new" and e.path.a[0] == "arena")]
    allocs = [e for e in ins if e.op in ("a.insert", "a.alloc", "a.alloc_untyped")]
    fills = [e for e in ins if e.op in ("a.insert", "a.fill_back", "a.fill_back_untyped")]
    if not ins:
        rep.und(rule, w, "no node is inserted")
        return
    A0 = ins[0].path
    if any(e.path is not A0 for e in ins):
        rep.und(rule, w, "several stores are filled")
        return

    def over_nodes(e):
        return len(e.loops) == 1 and strip(e.loops[0][0].a[0]) is N0
    if len(allocs) != 1 or len(fills) != 1 or not over_nodes(allocs[0]) or not over_nodes(fills[0]):
        e = next((x for x in allocs + fills if not over_nodes(x)), ins[0])
        (rep.und if opaque_terms(*[l for l, _ in e.loops]) or not e.loops else rep.bad)(
            rule, w, f"{len(allocs)} allocations and {len(fills)} insertions, over {[show(l.a[0]) for l, _ in e.loops]}")
        return
    al, fi = allocs[0], fills[0]
    fresh = strip(al.args[0])
    L0 = fi.loops[0][0]
    k = strip(mk("key", L0))
    for e in (al, fi):
        g = loop_axioms(normg(e.pc), [l for l, _ in e.loops])
        if g != 1:
            (rep.und if opaque_terms(g) else rep.bad)(rule, w, f"a node is taken over only when {BDD.show(g)[:200]} ({loc(e)})")
            return
        for _, u in e.loops:
            if [c for c in I.loop_info.get(u, {}).get("exits", []) if c[1]]:
                rep.bad(rule, w, f"the loop over the nodes may stop early ({loc(e)})")
                return
    got = (strip(fi.args[0]), strip(fi.args[1]))
    want = (fresh, mk("mget", N0, k))
    if got != want:
        (rep.und if opaque_terms(*got) else rep.bad)(rule, w, f"the store gets {show(got[0])} -> {show(got[1])} instead of a fresh index -> {show(want[1])}")
        return
    rep.ok(rule, w)
    # 2. the map from old to new indices
    rule = "every-internal-link-is-rewritten-once"
    maps = []
    for e in gv.log:
        if e.op == "ins" and e.path is not None and e.path.op == "new" and e.path.a[0] == "map" and over_nodes(e) and len(e.args) == 2:
            if strip(e.args[0]) is k and strip(e.args[1]) is fresh and normg(e.pc) == 1:
                maps.append(e)
    if not maps:
        cand = [e for e in gv.log if e.op == "ins" and over_nodes(e) and any(fresh in subterms(strip(a)) for a in e.args)]
        if cand:
            e = cand[0]
            (rep.und if opaque_terms(*e.args) else rep.bad)(rule, w, f"the new index is recorded as {' -> '.join(show(a) for a in e.args)}"
                                                            + (f" when {BDD.show(e.pc)[:100]}" if e.pc != 1 else ""))
        else:
            rep.und(rule, w, "no map from old to new indices")
        return
    M = maps[0].path
    later = [e for e in gv.log if e.path is M and e is not maps[0] and e.op not in ("reorder",)]
    if later:
        rep.und(rule, w, f"the map is also changed by {later[0].op}")
        return
    built = max(maps[0].seq, fi.seq, al.seq)
    # 3. the edits of the links
    edits = [e for e in gv.log if e.path is not None and e.path.op == "at" and e.path.a[0] in (A0, gv.N) and e.op not in ("n.add_link", "n.remove_link")]
    clear, add, other = [], [], []
    for e in edits:
        if e.op != "n.modify_link":
            other.append((e, f"{e.op} of a node"))
            continue
        d = domain(I, e, N0, B0, A0, M, fresh, k)
        if d is None:
            other.append((e, "links of " + ", ".join(show(l.a[0]) for l, _ in e.loops)))
            continue
        sb, axioms, need = d
        at = sb(e.path.a[1])
        so, old, new = (sb(a) for a in e.args)
        g = BDD.mapatoms(normg(e.pc), lambda t: axioms(sb(t)))
        item = (e, at, so, old, new, g, need)
        MX, MY = mk("mget", M, VX), mk("mget", M, VY)
        if at is MY and so is VS and old is VX and is_empty_idx(new):
            clear.append(item)
        elif at is MY and so is VS and is_empty_idx(old) and new is MX:
            add.append(item)
        else:
            other.append((e, f"link {show(so)} of node {show(at)} changes from {show(old)} to {show(new)}"))
    for e, what in other:
        if opaque_terms(e.path, *e.args, *[l for l, _ in e.loops]) or e.op != "n.modify_link":
            rep.und(rule, w, f"{what} ({loc(e)})")
            return
    if other:
        e, what = other[0]
        if e.op == "n.modify_link" and "changes from" in what and not clear and not add and not is_empty_idx(strip(e.args[1])) and not is_empty_idx(strip(e.args[2])):
            rep.bad(rule, w, f"old links are replaced one by one ({loc(e)}): where old and new indices overlap a link of a set that was already rewritten is taken for an old one")
        elif "changes from" in what:
            rep.bad(rule, w, f"{what}, where x# is the old target, y# the old source and s# the position ({loc(e)})")
        else:
            rep.und(rule, w, f"{what} ({loc(e)})")
        return
    for name, items in (("old links are not removed", clear), ("new links are not added", add)):
        if not items:
            (rep.und if r.I.unknown else rep.bad)(rule, w, name)
            return
    for name, items in (("the old link is removed", clear), ("the new link is added", add)):
        tot = 0
        for it in items:
            e, at, so, old, new, g, need = it
            if e.seq < built or any(u in {u2 for _, u2 in fi.loops} for _, u in e.loops):
                rep.bad(rule, w, f"{name} before all nodes have their new index ({loc(e)})")
                return
            for l, u in e.loops:
                if [c for c in I.loop_info.get(u, {}).get("exits", []) if c[1]]:
                    rep.bad(rule, w, f"{name}, but the loop over {show(l.a[0])} may stop early ({loc(e)})")
                    return
            tot = BDD.OR(tot, g)
        r1, cb = implies(1, tot)
        if r1 is not True:
            (rep.und if opaque_terms(tot) or r1 is None else rep.bad)(rule, w, f"{name} only in some cases ({loc(items[0][0])}): not when {show_cube(cb)}")
            return
        for i, a in enumerate(items):
            for b in items[i + 1:]:
                if BDD.AND(a[5], b[5]):
                    rep.und(rule, w, f"{name} at {loc(a[0])} and {loc(b[0])}")
                    return
        rep.ok(rule, w)
    # 4. all old links are gone before a new one appears
    rule = "old-and-new-indices-are-never-mixed"
    for a in clear:
        for b in add:
            common = {u for _, u in a[0].loops} & {u for _, u in b[0].loops}
            if a[0].seq > b[0].seq or common:
                rep.bad(rule, w, f"a new link ({loc(b[0])}) may be added before an old one is removed ({loc(a[0])}): where old and new indices overlap links get lost")
                return
    rep.ok(rule, w)
    # 5. the rewritten nodes are the nodes of the result
    rule = "the-result-holds-exactly-the-rewritten-nodes"
    last = max(x[0].seq for x in clear + add)
    if gv.N is A0:
        rep.ok(rule, w)
        return
    mg = [e for e in gv.log if e.path is gv.N and e.op in ("merge", "a.insert", "a.fill_back", "a.fill_back_untyped", "ins", "rem", "clear")]
    good = [e for e in mg if e.op == "merge" and strip(I.srckey(e.args[0])) is A0 and not e.loops and e.pc == 1]
    if len(good) == 1 and len(mg) == 1 and good[0].seq > last:
        rep.ok(rule, w)
    elif good and good[0].seq < last:
        rep.bad(rule, w, f"nodes are put into the result ({loc(good[0])}) before their links are rewritten")
    elif any(opaque_terms(*e.args) for e in mg):
        rep.und(rule, w, "how the result is filled is not understood")
    else:
        e = mg[0] if mg else None
        rep.bad(rule, w, f"the result gets {e.op} {show(e.args[0])[:100]}" if e else "no node is put into the result")


def domain(I, e, N0, B0, A0, M, fresh, k0):
    """loops of an edit as 'every link s from y to x': (substitution, axioms about atoms, extra)"""
    ls = [l for l, _ in e.loops]
    src = [strip(l.a[0]) for l in ls]
    if len(ls) != 2:
        return None
    s1 = strip(ls[0].a[0])
    L1, L2 = ls
    key1 = strip(mk("key", L1))
    MM = M
    if s1 in (N0, M):
        if src[1] is mk("mget", B0, key1):
            el = strip(mk("elem", L2))
            m = {key1: VX, mk("field", el, 0): VY, mk("field", el, 1): VS}
            kind = "x"
        elif src[1].op == "prim" and src[1].a[0] == "iter_sources":
            nd = strip(src[1].a[1])
            if nd in (mk("mget", N0, key1), mk("mget", A0, mk("mget", M, key1)), mk("mget", A0, fresh)):
                el = strip(mk("elem", L2))
                m = {key1: VY, mk("field", el, 0): VX, mk("field", el, 1): VS}
                kind = "y"
            else:
                return None
        else:
            return None
    elif s1 is B0 and src[1] is mk("mget", B0, key1):
        el = strip(mk("elem", L2))
        m = {key1: VX, mk("field", el, 0): VY, mk("field", el, 1): VS}
        kind = "b"
    else:
        return None

    def f(t):
        t = strip(t)

        # what the inner loop binds first, its source mentions what the outer one binds
        t = sub(t, {x: v for x, v in m.items() if x is not key1})
        m2 = {key1: m[key1], fresh: mk("mget", M, m.get(k0, m[key1]))}
        return sub(t, m2)

    def ax(t):
        # links are internal: both ends are nodes of the old graph
        if t.op == "has" and t.a[0] in (N0, B0, M) and t.a[1] in (VX, VY):
            return 1
        if t.op == "has" and t.a[0] is A0 and t.a[1] in (mk("mget", M, VX), mk("mget", M, VY)):
            return 1
        if t.op == "empty" and t.a[0] in (N0, M, B0, A0):
            return 0
        return batom(t)
    return f, ax, kind

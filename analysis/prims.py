"""Primitives of the graph layer: the store (CateArena) is a map from index to node, the node
reflection (NodeEnum) is a set of uninterpreted operations.  Both are verified on their own."""
from term import mk, BDD
import engine as E


def arena_get(M, fr, fn, args, st, span):
    I = M.I
    k = M.val(st, args[1])
    outs = []
    for g, p in M.rootplace(st, args[0]):
        h = I.has(I.load(st, p), k)
        outs.append((g, M.opt(h, mk("ref", M.at(p, k)))))
    return st, I.choice(outs)


def arena_dispatch(M, fr, fn, args, st, span):
    """the type of a stored node.  (A store of pending nodes also knows the types of allocated indices, see C16.)"""
    I = M.I
    if "::transaction::" in fr.body.name:
        return arena_pure(M, fr, fn, args, st, span)
    k = M.val(st, args[1])
    outs = []
    for g, p in M.rootplace(st, args[0]):
        h = I.has(I.load(st, p), k)
        outs.append((g, M.opt(h, mk("prim", "discriminant", I.srckey(I.load(st, M.at(p, k)))))))
    return st, I.choice(outs)


def arena_contains(M, fr, fn, args, st, span):
    return st, E.boolv(M.I.has(M.deref1(st, args[0]), M.val(st, args[1])))


def arena_remove(M, fr, fn, args, st, span):
    return st, M.remove(st, args[0], M.val(st, args[1]), span, "val")


def arena_new(M, fr, fn, args, st, span):
    v = M.new(st, "arena")
    M.I.event(st, "arena_new", v.a[0], tuple(M.val(st, a) for a in args), span)
    M.I.kind_of[v.a[0]] = "arena"
    return st, v


def arena_from_iter(M, fr, fn, args, st, span):
    I = M.I
    v = M.new(st, "arena")
    I.kind_of[v.a[0]] = "arena"
    root = mk("L", I.nuid(), 0)
    st.store[root] = v
    I.event(st, "arena_new", v.a[0], (M.val(st, args[0]),), span)
    it = M.into_iter(st, args[1], None, fr)

    def body(s, e):
        k, n = I.project(e, mk(".f", 0)), I.project(e, mk(".f", 1))
        M.m_insert(s, mk("ref", I.place(root)), M.val(s, k), n, span)
        return s, []
    s, _ = M.consume(it, st, body)
    if s is None:
        return None, None
    return s, s.store.pop(root)


def fresh(M, st):
    return mk("fresh", "idx", M.I.nseq(), tuple(l for l, _ in st.loops))


def arena_insert(M, fr, fn, args, st, span):
    I = M.I
    k = fresh(M, st)
    node = args[1]

    def cb(s, p, old):
        c = I.as_coll(old)
        q = I.event(s, "a.insert", I.path_of(s, p), (k, M.val(s, node)), span, old=old)
        con = None
        if c.a[3] is not None:
            con = c.a[3] + (M.ctr(s, c, E.tup(k, node)),)
        return I.bump(old, True, con, ("ins", k, s.pc, node), q), k
    return st, M.mutate(st, args[0], cb)


def arena_alloc(M, fr, fn, args, st, span):
    I = M.I
    k = fresh(M, st)

    def cb(s, p, old):
        I.event(s, "a." + fn["m"], I.path_of(s, p), (k,) + tuple(M.val(s, a) for a in args[1:]), span, old=old)
        return None, k
    return st, M.mutate(st, args[0], cb)


def arena_fill(M, fr, fn, args, st, span):
    I = M.I
    k = M.val(st, args[1])
    node = args[2]

    def cb(s, p, old):
        c = I.as_coll(old)
        q = I.event(s, "a." + fn["m"], I.path_of(s, p), (k, M.val(s, node)), span, old=old)
        con = None
        if c.a[3] is not None:
            con = c.a[3] + (M.ctr(s, c, E.tup(k, node)),)
        return I.bump(old, True, con, ("ins", k, s.pc, node), q), E.UNIT()
    return st, M.mutate(st, args[0], cb)


def arena_modify(M, fr, fn, args, st, span):
    """modify_with: the closure gets the stored node"""
    I = M.I
    k = M.val(st, args[1])
    st = absent_panics(M, st, args[0], k, span, fn)
    if st is None:
        return None, None
    outs = [(g, mk("ref", M.at(p, k))) for g, p in M.rootplace(st, args[0])]
    s, _ = I.call_value(st, args[2], [I.choice(outs)], span)
    return (s, E.UNIT()) if s is not None else (None, None)


def arena_update(M, fr, fn, args, st, span):
    """update_with: the closure turns the stored node into another one"""
    I = M.I
    k = M.val(st, args[1])
    st = absent_panics(M, st, args[0], k, span, fn)
    if st is None:
        return None, None
    p = M.rootplace(st, args[0])[0][1]
    old = I.load(st, M.at(p, k))
    s, v = I.call_value(st, args[2], [old], span)
    if s is None:
        return None, None
    pl = M.at(p, k)
    I.event(s, "changed", I.path_of(s, pl), (M.val(s, v),), span, old=old)
    I.store(s, pl, v, span, log=False)
    return s, E.UNIT()


def absent_panics(M, st, recv, k, span, fn):
    I = M.I
    bad = 0
    for g, p in M.rootplace(st, recv):
        bad = BDD.OR(bad, BDD.AND(g, BDD.NOT(I.has(I.load(st, p), k))))
    b = BDD.AND(st.pc, bad)
    if b and BDD.AND(b, st.assume):
        s2 = st.copy()
        s2.pc = b
        I.event(s2, "panic", None, (E.c("s:" + fn["m"]),), span, extra=fn["m"])
        st.assume = BDD.AND(st.assume, BDD.OR(BDD.NOT(st.pc), BDD.NOT(bad)))
    return st


def arena_merge(M, fr, fn, args, st, span):
    I = M.I
    other = M.val(st, args[1])

    def cb(s, p, old):
        c = I.as_coll(old)
        q = I.event(s, "merge", I.path_of(s, p), (other,), span, old=old)
        oc = I.as_coll(other)
        con = c.a[3] + oc.a[3] if c.a[3] is not None and oc.a[3] is not None else None
        return I.bump(old, True, con, ("append", other, s.pc), q), E.UNIT()
    return st, M.mutate(st, args[0], cb)


def arena_len(M, fr, fn, args, st, span):
    return st, M.I.length(M.deref1(st, args[0]))


def arena_iter(M, fr, fn, args, st, span):
    I = M.I
    m = fn["m"]
    mode = {"iter": "ref", "iter_mut": "mut", "into_iter": "val"}[m]
    if args[0].op in ("ref", "choice"):
        outs = []
        for g, p in M.rootplace(st, args[0]):
            v = I.load(st, p)
            outs.append((g, M.it("src", "arena", v, mode, mk("ref", p) if mode == "mut" else None)))
        return st, I.choice(outs)
    return st, M.it("src", "arena", args[0], mode, None)


def arena_pure(M, fr, fn, args, st, span):
    return st, mk("prim", fn["m"], *[M.I.srckey(M.val(st, a)) for a in args])


def arena_container(M, fr, fn, args, st, span):
    I = M.I
    d = M.val(st, args[1])
    outs = [(g, mk("ref", M.at(p, mk("cont", d)))) for g, p in M.rootplace(st, args[0])]
    return st, I.choice(outs)


def node_pure(M, fr, fn, args, st, span):
    I = M.I
    v = mk("prim", fn["m"], *[I.srckey(M.val(st, a)) for a in args])
    if fn["m"] in ("contains_link", "check_link", "in_group"):
        return st, E.boolv(BDD.atom(v))
    return st, v


def node_edit(M, fr, fn, args, st, span):
    I = M.I
    m = fn["m"]
    rest = tuple(M.val(st, a) for a in args[1:])

    def cb(s, p, old):
        if old.op == "coll":
            old = I.srckey(old)
        I.event(s, "n." + m, I.path_of(s, p), rest, span, old=old)
        r = mk("prim", m, old, *rest)
        new = mk("prim", "after_" + m, old, *rest)
        if m in ("add_link", "remove_link"):
            r = E.boolv(BDD.atom(r))
        return new, r
    return st, M.mutate(st, args[0], cb)


def disc_next(M, fr, fn, args, st, span):
    return st, mk("prim", "d_" + fn["m"], *[M.val(st, a) for a in args])


def graph_prims():
    p = {}
    for m in ("get", "get_mut"):
        p[("CateArena", m)] = arena_get
    p[("CateArena", "contains")] = arena_contains
    p[("CateArena", "remove")] = arena_remove
    p[("CateArena", "new")] = arena_new
    p[("CateArena", "new_from_iter")] = arena_from_iter
    p[("CateArena", "insert")] = arena_insert
    p[("CateArena", "alloc")] = arena_alloc
    p[("CateArena", "alloc_untyped")] = arena_alloc
    p[("CateArena", "fill_back")] = arena_fill
    p[("CateArena", "fill_back_untyped")] = arena_fill
    p[("CateArena", "merge")] = arena_merge
    p[("CateArena", "modify_with")] = arena_modify
    p[("CateArena", "update_with")] = arena_update
    p[("CateArena", "len")] = arena_len
    for m in ("iter", "iter_mut", "into_iter"):
        p[("CateArena", m)] = arena_iter
    p[("CateArena", "dispatch")] = arena_dispatch
    for m in ("get_container", "get_container_mut"):
        p[("CateArena", m)] = arena_container
    for m in ("iter_sources", "iter_links", "check_link", "contains_link", "get_links_by_name", "get_links_by_group",
              "in_group", "to_source_enum", "to_link_mirror_enum", "to_log_mirror_enums", "expand_link_groups",
              "get_bidiretional_links", "get_bidiretional_link_mirrors_of", "get_bidiretional_link_mirrors_of_log",
              "check_link_type", "check_link_type_by_group", "match_bd_link_group", "data_ref_by_name"):
        p[("NodeEnum", m)] = node_pure
    for m in ("modify_link", "add_link", "remove_link"):
        p[("NodeEnum", m)] = node_edit
    p[("Discriminated", "discriminant")] = node_pure
    p[("NodeDiscriminant", "first")] = disc_next
    p[("NodeDiscriminant", "next")] = disc_next
    return p

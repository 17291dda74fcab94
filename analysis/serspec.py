"""Rule over the serialised form of a graph and its rebuilding: C18."""
from term import mk, BDD, show, subterms
import engine as E
from engine import strip
from spec import *
from graphspec import GV, usable, recorder, c06_view, c09_view

OKNAMES = {"ok"}


def c18(ctx, rep, tag="default"):
    P = ctx.prog(tag)
    gr = graph_roles(P)
    gs = adt_named(P, "GraphSerializer")
    sr = {}
    for p, f in fields_deep(P, gs) if gs else []:
        ty = P.ty(gs["crate"], f["t"])
        if ty["k"] == "adt" and ty["n"].split("::")[-1] == "Uuid":
            sr.setdefault("C", p)
        elif class_of(P, gs["crate"], f["t"]) in ("vec", "map", "set") or "NodeIndex" in ty["s"]:
            sr.setdefault("N", p)
    if not {"C", "N"} <= set(sr) or not {"C", "N"} <= set(gr):
        rep.und("layout", "GraphSerializer", "fields not recognised")
        return
    w1 = written(ctx, rep, P, "Graph", gr)
    w2 = written(ctx, rep, P, "GraphSerializer", sr)
    rd = read(ctx, rep, P, sr)
    names(rep, w1, w2, rd)
    index(ctx, rep, P)
    into(ctx, rep, P, gr, sr)
    rebuild(ctx, rep, P, gr, sr, tag)


def outcome_only(g):
    """g says nothing but that earlier serde calls succeeded"""
    for a in BDD.support(g):
        if a.op == "isv" and a.a[0].op == "prim" and str(a.a[0].a[0]).startswith("call:serde"):
            continue
        if a.op == "exists" or a.op == "forall":
            continue
        if any(s.op == "prim" and str(s.a[0]).startswith("call:serde") for s in subterms(a)):
            continue
        return False
    return True


def calls(r, last):
    return [e for e in r.log if e.op == "call" and isinstance(e.extra, str) and e.extra.split("::")[-1] == last]


def written(ctx, rep, P, ty, roles):
    """[(name, role)] in the order written; None if not understood"""
    rule = "every-part-is-written"
    bs = P.method(ty, "serialize", "Serialize")
    if not bs:
        rep.und(rule, ty, "no serialize")
        return None
    r = Run(ctx, P, bs[0], ["self", "serializer"])
    if r.error or r.st is None:
        rep.und(rule, ty, "not analysed")
        return None
    rep.used(r)
    I, w, s = r.I, r.where, mk("param", "self")
    C, N = path_term(I, s, roles["C"]), path_term(I, s, roles["N"])
    fs = calls(r, "serialize_field")
    starts, ends = calls(r, "serialize_struct"), calls(r, "end")
    others = [e for e in r.log if e.op == "call" and e not in fs + starts + ends]
    if len(starts) != 1 or not fs or others:
        rep.und(rule, w, "not written as a struct field by field")
        return None
    out = []
    for e in fs:
        if e.loops or len(e.args) < 3 or e.args[1].op != "c" or not isinstance(e.args[1].a[0], str):
            rep.und(rule, w, f"field written in an unknown way ({loc(e)})")
            return None
        nm = e.args[1].a[0]
        if not outcome_only(normg(e.pc)):
            (rep.und if opaque_terms(*[a for a in BDD.support(normg(e.pc)) if not outcome_only(BDD.atom(a))]) else rep.bad)(
                rule, w, f"field {nm} is written only when {BDD.show(e.pc)[:300]} ({loc(e)})")
            return None
        v = I.canon(r.st, e.args[2])
        sv = strip(v)
        if sv is strip(C):
            role = "C"
        elif ty == "GraphSerializer" and sv is strip(N):
            role = "N"
        elif ty == "Graph":
            role = "N" if nodes_written(ctx, rep, P, r, v, N, e) else None
            if role is None:
                return None
        else:
            (rep.und if opaque_terms(sv) else rep.bad)(rule, w, f"field {nm} holds {show(sv)[:200]} ({loc(e)})")
            return None
        out.append((nm, role))
    if sorted(x for _, x in out) != ["C", "N"]:
        rep.bad(rule, w, f"the written fields are {[a for a, _ in out]}, not the context identity and the nodes once each")
        return None
    rep.ok(rule, w)
    n = starts[0].args[2] if len(starts[0].args) > 2 else None
    if n is not None and n.op == "c":
        rep.check(n.a[0] == len(fs), "announced-lengths-are-exact", w, f"announces {n.a[0]} fields and writes {len(fs)}")
    return out


def nodes_written(ctx, rep, P, r, v, N, e):
    rule = "every-pair-is-written"
    w = r.where
    N = strip(N)
    if v.op == "coll":
        cs = contents(v)
        return pairs(rep, rule, w, cs, N)
    if v.op != "agg":
        rep.und(rule, w, f"nodes written as {show(v)[:200]} ({loc(e)})")
        return False
    bs = P.method(v.a[0].split("::")[-1], "serialize", "Serialize")
    if len(bs) != 1:
        rep.und(rule, w, f"serialisation of {v.a[0]} not found")
        return False
    r2 = Run(ctx, P, bs[0], ["self", "serializer"], values={"self": v})
    w = r2.where
    if r2.error or r2.st is None:
        rep.und(rule, w, "not analysed")
        return False
    rep.used(r2)
    starts, els, ends = calls(r2, "serialize_seq"), calls(r2, "serialize_element"), calls(r2, "end")
    allc = calls(r2, "collect_seq")
    rest = [x for x in r2.log if x.op == "call" and x not in starts + els + ends]
    if len(starts) != 1 or len(els) != 1 or rest or allc:
        (rep.bad if len(starts) == 1 and not rest and not els else rep.und)(rule, w, f"{len(starts)} sequences with {len(els)} element writes")
        return False
    e = els[0]
    if len(e.loops) != 1 or strip(e.loops[0][0].a[0]) is not N:
        (rep.und if opaque_terms(*[l for l, _ in e.loops]) or not e.loops or len(e.loops) != 1 else rep.bad)(
            rule, w, f"elements are written for each of {[show(l.a[0])[:200] for l, _ in e.loops]} ({loc(e)})")
        return False
    L, u = e.loops[0]
    g = loop_axioms(normg(e.pc), [L])
    if not outcome_only(g):
        (rep.und if opaque_terms(*[a for a in BDD.support(g) if not outcome_only(BDD.atom(a))]) else rep.bad)(
            rule, w, f"a node is written only when {BDD.show(g)[:300]} ({loc(e)})")
        return False
    for c in r2.I.loop_info.get(u, {}).get("exits", []):
        if c[1] and not outcome_only(normg(c[1])):
            (rep.und if opaque_terms(*[a for a in BDD.support(normg(c[1])) if not outcome_only(BDD.atom(a))]) else rep.bad)(rule, w, f"the loop over the nodes may stop early, when {BDD.show(c[1])[:200]} ({loc(e)})")
            return False
    k = strip(mk("key", L))
    got = strip(r2.I.canon(r2.st, e.args[1]))
    if not is_pair(got, k, mk("mget", N, k)):
        (rep.und if opaque_terms(got) else rep.bad)(rule, w, f"the element written for a node is {show(got)[:200]} ({loc(e)})")
        return False
    rep.ok(rule, w)
    n = strip(starts[0].args[1]) if len(starts[0].args) > 1 else None
    rule = "announced-lengths-are-exact"
    if n is not None and n.op == "agg" and len(n.a[2]) == 1:
        x = n.a[2][0]
        if x is mk("len", N):
            rep.ok(rule, w)
        elif opaque_terms(x) or x.op not in ("c", "len", "sum"):
            rep.und(rule, w, f"announced length {show(x)[:200]}")
        else:
            rep.bad(rule, w, f"announces {show(x)[:200]} elements and writes one per node")
    return True


def behind(t):
    """the value a reference stands for"""
    while t.op == "ref" and t.a[0].op == "place" and not t.a[0].a[1] and t.a[0].a[0].op == "D":
        t = t.a[0].a[0].a[0]
    return t


def is_pair(t, a, b):
    if t.op == "agg" and t.a[0] == "()" and len(t.a[2]) == 2:
        return behind(t.a[2][0]) is a and behind(t.a[2][1]) is b
    return False


def contents(v):
    for x in v.a:
        if isinstance(x, tuple) and all(hasattr(c, "op") and c.op == "ctr" for c in x):
            return x
    return None


def pairs(rep, rule, w, cs, N):
    if cs is None or len(cs) != 1 or len(cs[0].a[0]) != 1:
        rep.und(rule, w, "contents not understood")
        return False
    L, g, val = cs[0].a[0][0], cs[0].a[1], strip(cs[0].a[2])
    if strip(L.a[0]) is not N:
        rep.und(rule, w, f"one element for each of {show(L.a[0])[:200]}")
        return False
    g = loop_axioms(normg(g), [L])
    if g != 1:
        (rep.und if opaque_terms(g) else rep.bad)(rule, w, f"a node is kept only when {BDD.show(g)[:200]}")
        return False
    k = strip(mk("key", L))
    if not is_pair(val, k, mk("mget", N, k)):
        (rep.und if opaque_terms(val) else rep.bad)(rule, w, f"the element of a node is {show(val)[:200]}")
        return False
    rep.ok(rule, w)
    return True


def read(ctx, rep, P, sr):
    """name -> role, and the order by position"""
    rule = "the-same-names-are-read"
    vs, seq = None, None
    for b in P.bodies.values():
        p = b.item["p"]
        if "Deserialize" in p and "GraphSerializer" in p:
            if b.name.endswith("::visit_str"):
                vs = b
            elif b.name.endswith("::visit_seq"):
                seq = b
    if vs is None or seq is None:
        rep.und(rule, "GraphSerializer", "deserialisation not recognised")
        return None
    r = Run(ctx, P, seq, ["self", "seq"])
    if r.error or r.st is None:
        rep.und(rule, "GraphSerializer", "deserialisation not analysed")
        return None
    rep.used(r)
    a = find_agg(r.retval(), "GraphSerializer")
    nx = [e for e in r.log if e.op == "call" and e.extra.split("::")[-1] == "next_element"]
    if a is None or len(nx) < 2:
        rep.und(rule, r.where, "reading by position not recognised")
        return None
    pos = {}
    byfield = {}
    for role, path in sr.items():
        v = agg_path(r.I, a, path)
        i = depth(v)
        if i is None:
            rep.und(rule, r.where, f"{role} is read from {show(v)[:200]}")
            return None
        pos[role] = i
        byfield[path[0]] = role
    # __Field::__fieldK -> field K of the declaration
    r2 = Run(ctx, P, vs, ["self", "name"])
    if r2.error or r2.st is None:
        rep.und(rule, "GraphSerializer", "field names not analysed")
        return None
    rep.used(r2)
    nm = {}
    v = r2.retval()
    alts = []
    if v.op == "agg" and v.a[2]:
        v = v.a[2][0]
    if v.op == "choice":
        alts = v.a[0]
    tot = 0
    for g, t in alts:
        if t.op != "agg":
            rep.und(rule, r2.where, f"name stands for {show(t)}")
            return None
        cand = set()
        for at in BDD.support(g):
            if at.op == "eq":
                for x in at.a:
                    if x.op == "c" and isinstance(x.a[0], str):
                        cand.add(x.a[0])
        for n in cand:
            def ev(at):
                if at.op == "eq":
                    cs = [x.a[0] for x in at.a if x.op == "c"]
                    if cs:
                        return 1 if cs[0] == n else 0
                return BDD.atom(at)
            if BDD.mapatoms(g, ev) == 1:
                nm[n] = str(t.a[1])
    return nm, pos, byfield, r2.where


def depth(v):
    """number of the element of the sequence v is, counting from 0"""
    while v.op in ("field", "nf", "vf"):
        v = v.a[0]
    if v.op == "prim" and str(v.a[0]).endswith("next_element"):
        n, x = 0, v.a[1]
        while x.op == "called":
            n, x = n + 1, x.a[1]
        return n if x is mk("param", "seq") else None
    return None


def names(rep, w1, w2, rd):
    rule = "the-same-names-are-read"
    if rd is None or w1 is None:
        return
    nm, pos, byfield, w = rd
    for who, wr in (("Graph", w1), ("GraphSerializer", w2)):
        if wr is None:
            continue
        for i, (n, role) in enumerate(wr):
            n = n[2:] if n.startswith("s:") else n
            tok = nm.get(n) or nm.get("s:" + n)
            want = [f for f, x in byfield.items() if x == role]
            if tok is None or "ignore" in tok:
                rep.bad(rule, w, f"{who} writes a field {n}, which is not a name of GraphSerializer when read")
                continue
            k = tok.split("__field")[-1]
            if k.isdigit():
                rep.check(int(k) in want, rule, w, f"the field {n} written by {who} is read as another field")
            rep.check(pos[role] == i, "the-same-order-is-read", w, f"the field {n} is written as number {i} by {who} and read as number {pos[role]}")


def index(ctx, rep, P):
    rule = "an-index-is-written-as-it-is-read"
    for b in P.method("NodeIndex", "serialize", "Serialize"):
        r = Run(ctx, P, b, ["self", "serializer"])
        cs = [e for e in r.log if e.op == "call"] if r.st is not None else []
        if len(cs) != 1 or not cs[0].args:
            rep.und(rule, r.where, "not understood")
            continue
        rep.used(r)
        x = strip(cs[0].args[-1])
        s = mk("param", "self")
        if x is s or x is mk("nf", s) or x is mk("field", s, 0):
            rep.ok(rule, r.where)
        elif opaque_terms(x):
            rep.und(rule, r.where, f"writes {show(x)[:200]}")
        else:
            rep.bad(rule, r.where, f"an index is written as {show(x)[:200]}")
    for b in P.bodies.values():
        p = b.item["p"]
        if "Deserialize" in p and p.count("for typed_graph::NodeIndex>") == 1 and b.name.split("::")[-1] in ("visit_newtype_struct", "visit_seq"):
            r = Run(ctx, P, b, ["self", "src"])
            if r.st is None:
                rep.und(rule, r.where, "not analysed")
                continue
            rep.used(r)
            a = find_agg(r.retval(), "NodeIndex")
            if a is None:
                rep.und(rule, r.where, "not understood")
                continue
            x = a.a[2][0]
            while x.op in ("field", "nf", "vf"):
                x = x.a[0]
            if x.op == "prim" and str(x.a[0]).startswith("call:serde"):
                rep.ok(rule, r.where)
            elif x.op == "sum" or x.op == "c":
                rep.bad(rule, r.where, f"an index is read as {show(x)[:200]}")
            else:
                rep.und(rule, r.where, f"an index is read as {show(x)[:200]}")


def into(ctx, rep, P, gr, sr):
    rule = "the-serialisable-form-holds-every-pair"
    bs = P.method("GraphSerializer", "from", "From")
    if not bs:
        rep.und(rule, "GraphSerializer::from", "not found")
        return
    r = Run(ctx, P, bs[0], ["value"])
    if r.error or r.st is None:
        rep.und(rule, r.where, "not analysed")
        return
    rep.used(r)
    a = find_agg(r.retval(), "GraphSerializer")
    if a is None:
        rep.und(rule, r.where, "result not recognised")
        return
    v = mk("param", "value")
    c = strip(agg_path(r.I, a, sr["C"]))
    want = strip(path_term(r.I, v, gr["C"]))
    if c is want:
        rep.ok(rule, r.where)
    else:
        (rep.und if opaque_terms(c) else rep.bad)(rule, r.where, f"the context identity becomes {show(c)[:200]}")
    n = agg_path(r.I, a, sr["N"])
    if n.op != "coll":
        rep.und(rule, r.where, f"the nodes become {show(n)[:200]}")
        return
    pairs(rep, rule, r.where, contents(n), strip(path_term(r.I, v, gr["N"])))


def rebuild(ctx, rep, P, gr, sr, tag):
    rule = "every-pair-is-rebuilt"
    r = ctx.run_fn("deserialize_graph", ["input"], tag=tag)
    if r is None or r.error or r.st is None:
        rep.und(rule, "deserialize_graph", "not analysed")
        return
    rep.used(r)
    w, I = r.where, r.I
    inp = mk("param", "input")
    C, V = strip(path_term(I, inp, sr["C"])), strip(path_term(I, inp, sr["N"]))
    g, cx = find_agg(r.retval(), "Graph"), find_agg(r.retval(), "Context")
    if g is None or cx is None:
        rep.und(rule, w, "result not recognised")
        return
    ca = adt_named(P, "Context")
    cp = next((p for p, f in fields_deep(P, ca) if P.ty(ca["crate"], f["t"]).get("n", "").split("::")[-1] == "Uuid"), None)
    for what, x, p in (("graph", g, gr["C"]), ("context", cx, cp)):
        if p is None:
            continue
        x = strip(agg_path(I, x, p))
        if x is C:
            rep.ok("the-identity-is-kept", w)
        else:
            (rep.und if opaque_terms(x) else rep.bad)("the-identity-is-kept", w, f"the identity of the rebuilt {what} is {show(x)[:200]}")
    gv = GV(r, "ret")
    if not usable(rep, "deserialize_graph", gv):
        return
    # every pair goes into the nodes
    stores = {gv.N}
    merges = [e for e in gv.log if e.op == "merge" and e.path is gv.N]
    for e in merges:
        if not e.loops and normg(e.pc) == 1:
            o = strip(e.args[0])
            stores.add(origin(e.args[0]) if e.args[0].op == "coll" else o)
    ins = [e for e in gv.log if e.op in ("ins", "a.fill_back_untyped", "a.fill_back", "a.insert", "a.insert_type") and e.path in stores]
    rem = [e for e in gv.log if e.op in ("rem", "clear", "take", "a.remove", "retain", "drain") and e.path in stores]
    if not ins or len(ins) > 1:
        cand = [e for e in gv.log if e.path is not None and e.path.op == "new" and e.path.a[0] == "arena" and e.op in ("ins", "a.fill_back_untyped", "a.insert")]
        (rep.bad if not ins and not cand and not I.unknown and not merges else rep.und)(rule, w, f"{len(ins)} insertions into the rebuilt nodes")
    else:
        e = ins[0]
        el = None
        if len(e.loops) == 1:
            el = strip(mk("elem", e.loops[0][0]))
        gd = loop_axioms(normg(e.pc), [l for l, _ in e.loops])
        if el is None or strip(e.loops[0][0].a[0]) is not V:
            (rep.und if not e.loops or opaque_terms(*[l for l, _ in e.loops]) else rep.bad)(rule, w, f"a node is inserted for each of {[show(l.a[0])[:200] for l, _ in e.loops]} ({loc(e)})")
        elif gd != 1:
            (rep.und if opaque_terms(gd) else rep.bad)(rule, w, f"a pair is inserted only when {BDD.show(gd)[:300]} ({loc(e)})")
        elif [c for c in I.loop_info.get(e.loops[0][1], {}).get("exits", []) if c[1]]:
            rep.bad(rule, w, f"the loop over the pairs may stop early ({loc(e)})")
        else:
            a, b = strip(e.args[0]), strip(e.args[1]) if len(e.args) > 1 else None
            if a is mk("field", el, 0) and b is mk("field", el, 1):
                rep.ok(rule, w)
            else:
                (rep.und if opaque_terms(a, b) else rep.bad)(rule, w, f"{show(b)[:150] if b is not None else '-'} is inserted under {show(a)[:150]} ({loc(e)})")
    for e in rem:
        (rep.und if opaque_terms(e.path, *e.args, e.pc) or e.path is not gv.N else rep.bad)(rule, w, f"{e.op} of rebuilt nodes ({loc(e)})")
    c06_view(rep, "deserialize_graph", gv)
    rc = recorder(gv)
    if rc is None:
        rep.und("recorder", w, "recorder of link changes not recognised")
    else:
        c09_view(rep, "deserialize_graph", gv, *rc)

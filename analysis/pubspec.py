"""Rule over the ways a graph can be reached from outside: C02."""
import re
from term import mk, BDD, show, subterms
from engine import strip
from spec import *

CELLS = ("Cell", "RefCell", "UnsafeCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "OnceLock", "LazyLock", "AtomicPtr", "SyncUnsafeCell")


def c02(ctx, rep):
    P = ctx.prog("default", ("ttgraph", "witness"))
    fields(ctx, rep, P)
    cells(ctx, rep, P)
    functions(ctx, rep, P)
    pointers(ctx, rep, P)
    trans(ctx, rep, P)


def last(n):
    return n.split("::")[-1]


def walk(P, crate, tid, seen=None, through_refs=True):
    """every type mentioned by a type, following type arguments and the fields of own structs"""
    seen = set() if seen is None else seen
    stack = [(crate, tid, ())]
    while stack:
        c, t, path = stack.pop()
        if (c, t) in seen:
            continue
        seen.add((c, t))
        ty = P.ty(c, t)
        yield c, t, ty, path
        k = ty["k"]
        if k == "adt":
            for a in ty.get("a", []):
                stack.append((c, a, path + (ty["s"],)))
            ad = P.adts.get(ty["n"])
            if ad is not None and last(ty["n"]) not in ("Graph",):
                for v in ad["vs"]:
                    for f in v["f"]:
                        stack.append((ad["crate"], f["t"], path + (ty["s"],)))
        elif k in ("ref", "ptr", "array", "slice"):
            stack.append((c, ty["t"], path + (ty["s"],)))
        elif k == "tuple":
            for a in ty["a"]:
                stack.append((c, a, path + (ty["s"],)))


def params_of(P, name):
    """names of the type parameters a struct uses in its fields"""
    a = adt_named(P, name)
    out = set()
    if a is None:
        return out
    for v in a["vs"]:
        for f in v["f"]:
            for c, t, ty, _ in walk(P, a["crate"], f["t"]):
                if ty["k"] == "param":
                    out.add(ty["n"])
    return out


def is_graph(ty):
    return ty["k"] == "adt" and last(ty["n"]) == "Graph"


def graph_ref(P, crate, tid):
    """mutability of the reference to a graph this parameter is, or None"""
    ty = P.ty(crate, tid)
    if ty["k"] == "ref" and is_graph(P.ty(crate, ty["t"])):
        return "mut" if ty["m"] else "shared"
    return None


def fields(ctx, rep, P):
    rule = "the-content-of-a-graph-is-private"
    a = adt_named(P, "Graph")
    gr = graph_roles(P)
    for role in ("N", "B"):
        if role not in gr:
            rep.und(rule, "Graph", f"{role} not recognised")
            continue
        ad = a
        open_ = True
        for i in gr[role]:
            f = ad["vs"][0]["f"][i]
            if not f["export"]:
                open_ = False
                break
            ty = P.ty(ad["crate"], f["t"])
            ad = P.adts.get(ty.get("n"), ad)
        if open_:
            rep.bad(rule, a["s"], f"the field {f['n']} of Graph is visible to users: its nodes can be changed without a commit")
        else:
            rep.ok(rule, "Graph")


def cells(ctx, rep, P):
    rule = "no-interior-mutability-in-graphs"
    roots = [adt_named(P, "Graph")]
    for n, a in P.adts.items():
        if a["crate"] == "witness" and (last(n).endswith("Arena") or "Arena" in last(n)):
            roots.append(a)
        elif a["crate"] == "ttgraph" and last(n) in ("Arena",):
            roots.append(a)
    for a in roots:
        if a is None:
            continue
        for v in a["vs"]:
            for f in v["f"]:
                bad = None
                for c, t, ty, path in walk(P, a["crate"], f["t"]):
                    if ty["k"] == "adt" and last(ty["n"]) in CELLS and holds_nodes(P, c, t):
                        bad = ty["s"]
                    if ty["k"] == "ptr" and ty["m"] and holds_nodes(P, c, t):
                        bad = ty["s"]
                if bad:
                    rep.bad(rule, a["s"], f"the field {f['n']} of {last(a['n'])} holds its nodes in {bad}")
                else:
                    rep.ok(rule, a["n"] + "." + str(f["n"]))


def holds_nodes(P, crate, tid):
    for c, t, ty, _ in walk(P, crate, tid):
        if ty["k"] == "param" or ty["k"] == "adt" and last(ty["n"]) == "NodeIndex" or ty["k"] == "alias":
            return True
    return False


MUT = re.compile(r"&(?:'\w+ )?mut ")


def hands_out(P, crate, tid):
    """a mutable reference (or mutable iterator) to part of a graph inside a returned type, as text"""
    for c, t, ty, _ in walk(P, crate, tid):
        if ty["k"] in ("ref", "ptr") and ty["m"]:
            to = P.ty(c, ty["t"])
            if is_graph(to) or to["k"] == "adt" and last(to["n"]) in ("Transaction", "Formatter") or to["k"] == "prim":
                continue
            return ty["s"]
        if ty["k"] == "adt" and last(ty["n"]) in ("IterMut", "ValuesMut", "Drain", "RefMut", "MutexGuard", "RwLockWriteGuard", "OccupiedEntry", "Entry", "IterMut2"):
            return ty["s"]
        if ty["k"] in ("alias", "dyn"):
            s = ty["s"]
            m = MUT.search(s)
            if m and s.startswith(("impl ", "dyn ")):
                return s
            if re.search(r"::(IterMut|ValuesMut|Drain)\b", s):
                return s
    return None


def functions(ctx, rep, P):
    rule = "no-mutable-access-is-handed-out"
    rule2 = "only-commits-change-a-graph"
    n = 0
    for key, b in sorted(P.bodies.items(), key=lambda kv: kv[1].name):
        it = b.item
        if b.foreign or b.crate != "ttgraph" or not it.get("export") or "in" not in it:
            continue
        refs = [(i, graph_ref(P, b.crate, t)) for i, t in enumerate(it["in"])]
        refs = [(i, m) for i, m in refs if m]
        if not refs:
            continue
        n += 1
        w = it["p"] + " (" + rel(it["s"]) + ")"
        takes = [P.ty(b.crate, t) for t in it["in"]]
        commits = any(t["k"] == "adt" and last(t["n"]) == "Transaction" for t in takes)
        touched = any(t["k"] == "ref" and t["m"] and P.ty(b.crate, t["t"])["k"] == "adt" and last(P.ty(b.crate, t["t"])["n"]) == "Transaction" for t in takes)
        mut = [i for i, m in refs if m == "mut"]
        out = hands_out(P, b.crate, it["out"])
        if out and mut:
            rep.bad(rule, w, f"returns {out}, through which nodes of the graph can be changed without a commit")
        elif out:
            rep.bad(rule, w, f"returns {out} from a shared graph")
        else:
            rep.ok(rule, w)
        if mut and not commits:
            # callbacks that get mutable access
            r = Run(ctx, P, b, ["p%d" % i for i in range(len(takes))])
            if r.error or r.st is None:
                rep.und(rule2, w, "not analysed")
                continue
            rep.used(r)
            evs = []
            for e in r.log:
                if e.path is None or e.op in ("reorder", "call", "panic"):
                    continue
                root = e.path
                for s in subterms(e.path):
                    if any(s is mk("P", "p%d" % i) or s is mk("param", "p%d" % i) for i in mut):
                        evs.append(e)
                        break
            if evs and touched:
                rep.und(rule2, w, "changes a graph with a transaction it does not consume")
            elif evs:
                rep.bad(rule2, w, f"changes the graph without a transaction: {evs[0].op} on {show(evs[0].path)[:200]} ({loc(evs[0])})")
            elif r.I.unknown:
                rep.und(rule2, w, f"calls {r.I.unknown[0][0]}")
            else:
                fin = r.I.canon(r.st, r.st.store.get(mk("P", "p%d" % mut[0]), mk("param", "p%d" % mut[0])))
                if strip(fin) is mk("param", "p%d" % mut[0]) or fin is mk("param", "p%d" % mut[0]):
                    rep.ok(rule2, w)
                elif opaque_terms(fin):
                    rep.und(rule2, w, f"the graph becomes {show(fin)[:200]}")
                else:
                    rep.bad(rule2, w, f"the graph becomes {show(fin)[:200]} without a transaction")
    # implementations on mutable references to a graph
    for im in P.impl_list:
        if im["crate"] != "ttgraph":
            continue
        ty = P.ty(im["crate"], im["self"])
        if ty["k"] == "ref" and ty["m"] and is_graph(P.ty(im["crate"], ty["t"])):
            for nm, t in im["assoc"]:
                out = hands_out(P, im["crate"], t)
                rep.check(out is None, rule, rel(im["s"]), f"{im['trait']} for &mut Graph gives {out}, through which nodes can be changed without a commit")
    if n < 8:
        rep.und(rule, "Graph", f"only {n} public functions take a graph")


def casts(P, b):
    """casts to mutable raw pointers of anything generic or own"""
    out = []
    stack = [b.blocks]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get("k") == "cast" and isinstance(x.get("t"), int):
                ty = P.ty(b.crate, x["t"])
                if ty["k"] == "ptr" and ty["m"] or ty["k"] == "ref" and ty["m"] and "Transmute" in str(x.get("c")):
                    to = P.ty(b.crate, ty["t"])
                    if to["k"] in ("param", "alias", "adt"):
                        out.append(ty["s"])
            stack += list(x.values())
        elif isinstance(x, list):
            stack += x
    return out


def pointers(ctx, rep, P):
    rule = "no-shared-reference-is-made-mutable"
    n = 0
    for b in P.bodies.values():
        if b.foreign:
            continue
        n += 1
        c = casts(P, b)
        if c:
            rep.bad(rule, b.item["p"] + " (" + rel(b.item["s"]) + ")", f"makes a {c[0]} out of a shared reference or pointer")
    rep.ok(rule, f"{n} functions")


def trans(ctx, rep, P):
    rule = "a-transaction-holds-no-graph"
    a = adt_named(P, "Transaction")
    if a is None:
        rep.und(rule, "Transaction", "not found")
        return
    for f in a["vs"][0]["f"]:
        bad = None
        for c, t, ty, path in walk(P, a["crate"], f["t"]):
            if is_graph(ty):
                bad = ty["s"]
            elif ty["k"] in ("ref", "ptr") and holds_nodes(P, c, ty["t"]):
                bad = ty["s"]
            elif ty["k"] == "adt" and last(ty["n"]) in ("Rc", "Arc") and any(x["k"] == "adt" and last(x["n"]) in CELLS for _, _, x, _ in walk(P, c, t)) and holds_nodes(P, c, t):
                bad = ty["s"]
        if bad:
            rep.bad(rule, a["s"], f"the field {f['n']} of Transaction is or holds {bad}")
        else:
            rep.ok(rule, "Transaction." + str(f["n"]))
    # dropping a transaction
    rule = "dropping-a-transaction-has-no-effect"
    for b in P.bodies.values():
        it = b.item
        if b.crate == "ttgraph" and it.get("impl_trait", "").endswith("ops::drop::Drop") and not b.foreign:
            st = P.ty(b.crate, it["impl_self"])
            if st["k"] == "adt" and last(st["n"]) in ("Transaction", "Graph", "Context"):
                r = Run(ctx, P, b, ["self"])
                if r.error or r.st is None:
                    rep.und(rule, it["p"], "not analysed")
                    continue
                rep.used(r)
                for e in r.log:
                    if e.op in ("panic",):
                        (rep.und if opaque_terms(e.pc) else rep.bad)(rule, it["p"], f"dropping a {last(st['n'])} panics when {BDD.show(e.pc)[:200]} ({loc(e)})")
                        break
                else:
                    rep.ok(rule, it["p"])
    bs = P.method("Transaction", "give_up")
    for b in bs:
        r = Run(ctx, P, b, ["self"])
        if r.error or r.st is None:
            rep.und(rule, it["p"], "not analysed")
            continue
        rep.used(r)
        rep.ok(rule, r.where)

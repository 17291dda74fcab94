"""Rules over the graph layer: C03, C06..C12 (and what they share)."""
from term import mk, BDD, show, subterms, rewrite
from engine import strip
import engine as E
from spec import *


class Item:
    """an update of the reverse index or of the recorder, demanded or found"""
    __slots__ = ("sign", "loops", "y", "e", "gmin", "gmax", "ev", "what", "assume", "used", "rev")

    def __init__(self, sign, loops, y, e, gmin, gmax, ev, what):
        self.sign, self.loops, self.y, self.e = sign, loops, y, e
        self.gmin, self.gmax, self.ev, self.what = gmin, gmax, ev, what
        self.used = False

    def show(self):
        ls = " ".join("for every " + show(l.a[0]) for l in sorted(self.loops, key=lambda l: l.id))
        return f"{self.sign} {show(self.e)} at {show(self.y)} {ls}"


class GV:
    """view of a run that changes or builds a graph"""

    def __init__(self, run, kind):
        self.run, self.kind, self.I = run, kind, run.I
        self.log = run.log
        self.problem = None
        P = run.P
        r = graph_roles(P)
        self.rolepaths = r
        self.N = self.B = self.C = None
        if run.error or run.st is None:
            self.problem = run.error or "never returns"
            return
        if set(r) != {"N", "B", "C"}:
            self.problem = "fields of Graph not recognised"
            return
        if kind == "self":
            s = mk("param", "self")
            self.N, self.B, self.C = (path_term(self.I, s, r[k]) for k in "NBC")
        else:
            g = find_agg(run.retval(), "Graph")
            if g is None:
                self.problem = "returned graph not recognised"
                return
            self.G = g
            self.Nv, self.Bv = agg_path(self.I, g, r["N"]), agg_path(self.I, g, r["B"])
            self.N, self.B, self.C = origin(self.Nv), origin(self.Bv), agg_path(self.I, g, r["C"])
        self.nsets = []
        for e in self.log:
            p = e.path
            if p is self.N and e.op in ("merge", "a.insert", "a.fill_back", "a.fill_back_untyped", "ins"):
                self.nsets.append(e)
            elif p is not None and p.op == "at" and p.a[0] is self.N and e.op in ("changed", "assign"):
                self.nsets.append(e)
        for e in self.log:
            if e.op == "havoc" and e.path is not None and (e.path in (self.N, self.B) or
                                                          (e.path.op == "at" and e.path.a[0] in (self.N, self.B))):
                self.problem = f"{e.extra} is not modelled"
        if run.I.unknown:
            u = run.I.unknown[0]
            self.problem = self.problem or f"call of {u[0]} at {rel(u[1])} is not modelled"
        self._nt = {}

    # -------------------------------------------------------------- normal forms
    def ver(self, t):
        if t.op == "ver":
            return t.a[0], t.a[1]
        if t.op == "coll":
            return t.a[0], t.a[2]
        return t, 0

    def nt(self, t):
        """term in normal form: contents of N by what they were set to, versions forgotten"""
        r = self._nt.get(t)
        if r is None:
            r = rewrite(t, self._res)(t)
            r = strip(r)
            if r is not t:
                r2 = rewrite(r, self._eta)(r)
                r = r2
            self._nt[t] = r
        return r

    def node(self, k):
        """the stored node of index k in normal form"""
        return self.nt(mk("mget", mk("ver", self.N, 1 << 50), k))

    def _eta(self, x):
        if x.op == "agg" and x.a[0] == "()" and x.a[2]:
            return self.I.eta(x)
        return x

    def _res(self, x):
        if x.op == "mget":
            b, v = self.ver(x.a[0])
            if b is self.N:
                k = strip(x.a[1])
                best = None
                for e in self.nsets:
                    if e.seq > v:
                        break
                    if e.op == "merge":
                        o = origin(e.args[0])
                        if k.op == "key" and strip(k.a[0].a[0]) is strip(o):
                            best = mk("mget", o, x.a[1])
                    elif e.op in ("changed", "assign"):
                        if strip(e.path.a[1]) is k:
                            best = e.args[0]
                    elif strip(e.args[0]) is k:
                        best = e.args[1]
                if best is not None:
                    return self.nt(best)
            elif b.op == "new" and b.a[0] == "arena":
                k = strip(x.a[1])
                vs = {self.nt(e.args[1]) for e in self.log if e.path is b and e.op in ("a.insert", "ins") and len(e.args) == 2
                      and e.seq <= v and self.nt(e.args[0]) is self.nt(k)}
                if len(vs) == 1:
                    return vs.pop()
        return x

    def ng(self, f, loops=()):
        def at(t):
            t = self.nt(t)
            if t.op == "has" and t.a[0] is self.N and self.listed(t.a[1]):
                return 1        # the source of a listed link is a node of the graph
            return batom(t)
        f = BDD.mapatoms(f, at)
        if loops and self.I.filled_by:
            # a loop over a collection runs only if the collection is not empty
            run = set().union(*[self.filled().get(strip(l.a[0]), ()) for l in loops if l.op == "loop"])
            if run:
                f = BDD.mapatoms(f, lambda t: 1 if t in run else BDD.atom(t))
        if self.kind == "self":
            # the reverse index has an entry for every node of the graph
            for t in BDD.support(f):
                if t.op == "has" and t.a[0] is self.B:
                    n = BDD.atom(mk("has", self.N, t.a[1]))
                    f = BDD.ite(n, BDD.mapatoms(f, lambda a: 1 if a is t else BDD.atom(a)), f)
        return loop_axioms(f, loops)

    def filled(self):
        """collection -> atoms that say that it is not empty"""
        r = self.__dict__.get("_filled")
        if r is None:
            r = self._filled = {}
            for a, cs in self.I.filled_by.items():
                b = batom(self.nt(a))
                for x in BDD.support(b):
                    if BDD.atom(x) == b:
                        for c in cs:
                            r.setdefault(strip(c), set()).add(x)
        return r

    def listed(self, k):
        """k is the source position of an entry of the reverse index"""
        if k.op != "field" or k.a[1] != 0 or k.a[0].op != "elem" or self.kind != "self":
            return False
        b = strip(k.a[0].a[0].a[0])
        return b.op == "mget" and strip(b.a[0]) is self.B

    def gone(self, x, loops):
        """when the node x is taken out of the graph as a whole by the same step"""
        g = 0
        for e in self.log:
            if e.path is self.N and e.op == "rem" and self.loops(e) <= loops:
                g = BDD.OR(g, BDD.AND(e.pc, self.I.eqv(self.nt(e.args[0]), x)))
        return self.ng(g, loops)

    def after(self, e, v):
        """e happens to a content that has version v: after it, or in a round of an open loop that may follow it.
        What is left after such a loop has the version of the head of the loop."""
        if e.seq <= v:
            return False
        for l, u in e.loops:
            i = self.I.loop_info.get(u, {})
            if i.get("kind") == "while" and i["start"] < v:
                return False
        return True

    def loops(self, e, *more):
        return frozenset(self.nt(l) for l, _ in e.loops) | frozenset(self.nt(l) for l in more)

    def src_loop(self, node):
        n = mk("prim", "iter_sources", node)
        return mk("loop", n, 0)

    def arena_elems(self, v):
        """(loops, guard, key, node) of the content of an arena"""
        I = self.I
        cs = I.as_coll(v).a[3]
        if cs is not None:
            for c in cs:
                yield ([self.nt(l) for l in c.a[0]], c.a[1], self.nt(I.project(c.a[2], mk(".f", 0))),
                       self.nt(I.project(c.a[2], mk(".f", 1))))
            return
        S = self.nt(I.srckey(v))
        L = mk("loop", S, 0)
        k = mk("key", L)
        yield [L], 1, k, self.nt(mk("mget", S, k))

    # -------------------------------------------------------------- link changes demanded
    def link_changes(self):
        """every change of a link made to nodes of the graph: list of Item with e = (x, s)"""
        out, keys, odd = [], [], []
        I = self.I
        ADD, REM = modify_fields(self.run.P)
        for e in self.log:
            p = e.path
            if p is None:
                continue
            pc = e.pc
            if p is self.N:
                if e.op == "merge":
                    for L1s, g, k, n in self.arena_elems(e.args[0]):
                        L2 = self.src_loop(n)
                        el = mk("elem", L2)
                        g = BDD.AND(pc, g)
                        out.append(Item("+", self.loops(e, L2, *L1s), mk("field", el, 0), (k, mk("field", el, 1)), g, g, e, "merge"))
                        keys.append(("+", self.loops(e, *L1s), k, e))
                elif e.op in ("a.insert", "a.fill_back", "a.fill_back_untyped", "ins"):
                    k, n = self.nt(e.args[0]), self.nt(e.args[1])
                    L2 = self.src_loop(n)
                    el = mk("elem", L2)
                    out.append(Item("+", self.loops(e, L2), mk("field", el, 0), (k, mk("field", el, 1)), pc, pc, e, "insert"))
                    keys.append(("+", self.loops(e), k, e))
                elif e.op == "rem":
                    k = self.nt(e.args[0])
                    n = self.nt(mk("mget", I.srckey(e.old), e.args[0]))
                    L2 = self.src_loop(n)
                    el = mk("elem", L2)
                    out.append(Item("-", self.loops(e, L2), mk("field", el, 0), (k, mk("field", el, 1)), pc, pc, e, "remove"))
                    keys.append(("-", self.loops(e), k, e))
                elif e.op in ("a.alloc", "a.alloc_untyped", "arena_new"):
                    pass
                else:
                    odd.append(e)
            elif p.op == "at" and p.a[0] is self.N:
                y = self.nt(p.a[1])
                if e.op in ("changed", "assign"):
                    old = e.old if e.old is not None else mk("mget", self.N, p.a[1])
                    for sg, n in (("-", self.nt(old)), ("+", self.nt(e.args[0]))):
                        L2 = self.src_loop(n)
                        el = mk("elem", L2)
                        out.append(Item(sg, self.loops(e, L2), mk("field", el, 0), (y, mk("field", el, 1)), pc, pc, e, "change"))
                elif e.op == "n.modify_link":
                    s, o, n = (self.nt(a) for a in e.args)
                    r = mk("prim", "modify_link", I.srckey(e.old) if e.old.op == "coll" else e.old, *e.args)
                    ad = flag(I, I.project(r, mk(".f", ADD)))
                    rm = flag(I, I.project(r, mk(".f", REM)))
                    if not is_empty_idx(o):
                        out.append(Item("-", self.loops(e), o, (y, s), BDD.AND(pc, rm), pc, e, "modify"))
                    if not is_empty_idx(n):
                        out.append(Item("+", self.loops(e), n, (y, s), BDD.AND(pc, ad), pc, e, "modify"))
                elif e.op in ("n.add_link", "n.remove_link"):
                    m = e.op[2:]
                    l, x = (self.nt(a) for a in e.args)
                    r = BDD.atom(mk("prim", m, e.old, *e.args))
                    s = mk("prim", "to_source_enum", l)
                    out.append(Item("+" if m == "add_link" else "-", self.loops(e), x, (y, s), BDD.AND(pc, r), pc, e, m))
                else:
                    odd.append(e)
        return out, keys, odd

    # -------------------------------------------------------------- reverse index updates found
    def index_updates(self):
        out, keys, odd = [], [], []
        I = self.I
        for e in self.log:
            p = e.path
            if p is None:
                continue
            if p is self.B:
                if e.op in ("rem", "clear"):
                    if e.op == "clear":
                        L0 = mk("loop", self.B, 0)
                        k, ls = mk("key", L0), [L0]
                    else:
                        k, ls = self.nt(e.args[0]), []
                    L = mk("loop", mk("mget", self.B, k), 0)
                    out.append(Item("-", self.loops(e, L, *ls), k, mk("elem", L), e.pc, e.pc, e, "drop"))
                    keys.append(("-", self.loops(e, *ls), k, e))
                elif e.op in ("ensure", "ins"):
                    k, v = self.nt(e.args[0]), e.args[1]
                    keys.append(("+", self.loops(e), k, e))
                    cs = I.as_coll(v).a[3] if v.op == "coll" else None
                    if cs is None:
                        odd.append(e)
                        continue
                    if e.op == "ins" and not self.absent_before(e):
                        L = mk("loop", mk("mget", self.B, k), 0)
                        out.append(Item("-", self.loops(e, L), k, mk("elem", L), e.pc, e.pc, e, "overwrite"))
                    for c in cs:
                        out.append(Item("+", self.loops(e, *c.a[0]), k, self.nt(c.a[2]), BDD.AND(e.pc, c.a[1]),
                                        BDD.AND(e.pc, c.a[1]), e, "ins"))
                elif e.op in ("append",):
                    odd.append(e)
                elif e.op == "reorder":
                    pass
                else:
                    odd.append(e)
            elif p.op == "at" and p.a[0] is self.B:
                k = self.nt(p.a[1])
                if e.op in ("ins", "rem"):
                    out.append(Item("+" if e.op == "ins" else "-", self.loops(e), k, self.nt(e.args[0]), e.pc, e.pc, e, e.op))
                elif e.op in ("clear", "assign"):
                    L = mk("loop", mk("mget", self.B, k), 0)
                    out.append(Item("-", self.loops(e, L), k, mk("elem", L), e.pc, e.pc, e, "clear"))
                    if e.op == "assign":
                        v = e.args[0]
                        cs = I.as_coll(v).a[3] if v.op == "coll" else None
                        if cs is None:
                            odd.append(e)
                            continue
                        for c in cs:
                            out.append(Item("+", self.loops(e, *c.a[0]), k, self.nt(c.a[2]), BDD.AND(e.pc, c.a[1]),
                                            BDD.AND(e.pc, c.a[1]), e, "ins"))
                elif e.op == "append":
                    S = self.nt(I.srckey(e.args[0])) if e.args[0].op == "coll" else self.nt(e.args[0])
                    L = mk("loop", S, 0)
                    out.append(Item("+", self.loops(e, L), k, mk("elem", L), e.pc, e.pc, e, "ins"))
                elif e.op == "reorder":
                    pass
                else:
                    odd.append(e)
        return out, keys, odd

    def absent_before(self, e):
        """the key was taken out (or found absent) right before being inserted"""
        h = self.I.has(e.old, e.args[0]) if e.old is not None else 1
        return BDD.AND(h, e.pc, e.assume) == 0


def flag(I, t):
    """a bool field, as a branch on it sees it"""
    return BDD.NOT(I.eqv(t, E.c(0)))


def modify_fields(P):
    a = adt_named(P, "ModifyResult")
    if a:
        ns = [f["n"] for f in a["vs"][0]["f"]]
        if "added" in ns and "removed" in ns:
            return ns.index("added"), ns.index("removed")
    return 1, 2


def is_empty_idx(t):
    return t.op == "agg" and len(t.a[2]) == 1 and t.a[2][0].op == "c" and t.a[2][0].a[0] == 0


# ---------------------------------------------------------------------- entries
def pending(ctx, m, names, tag):
    """The run of a commit. If it treats a transaction with nothing pending apart and that case has no effect, the
    run of the other case is returned: what has to happen for each pending operation only matters there."""
    r = ctx.run("Graph", m, names, tag=tag)
    if r is None or r.error or r.st is None:
        return r
    T = trans_roles(ctx, Report("roles"), tag)
    if not T:
        return r
    T = as_t(T)
    es = [mk("empty", T[k]) for k in ("RL", "RA", "MU", "UP", "DEC", "INC", "ALLOC")]

    def apart(e):
        return sum(a in es for a in BDD.support(e.pc)) >= 4
    if not any(apart(e) for e in r.log):
        return r
    some = BDD.NOT(BDD.AND(*[BDD.atom(a) for a in es]))
    none = ctx.run("Graph", m, names, tag=tag, assume=BDD.NOT(some), case="nothing pending")
    if none is None or none.error or none.st is None or none.I.unknown:
        return r
    if any(e.path is not None and root_of(strip(e.path)) is mk("param", "self") or e.op == "apply" for e in none.log):
        return r
    rest = ctx.run("Graph", m, names, tag=tag, assume=some, case="something pending")
    return rest if rest and not rest.error and rest.st is not None else r


def views(ctx, tag="default", whole=False):
    """every way a graph is changed or built"""
    out = []
    run = (lambda m, n: ctx.run("Graph", m, n, tag=tag)) if whole else (lambda m, n: pending(ctx, m, n, tag))
    r = run("commit", ["self", "t"])
    out.append(("commit", GV(r, "self") if r else None))
    if tag != "nodebug":
        r = run("commit_checked", ["self", "t", "checks"])
        out.append(("commit_checked", GV(r, "self") if r else None))
    r = ctx.run("Graph", "switch_context", ["self", "new_ctx"], tag=tag)
    out.append(("switch_context", GV(r, "ret") if r else None))
    r = ctx.run_fn("deserialize_graph", ["input"], tag=tag)
    out.append(("deserialize_graph", GV(r, "ret") if r else None))
    return out


def usable(rep, name, gv):
    if gv is None:
        rep.und("entry", name, f"{name} not found")
        return False
    rep.used(gv.run)
    if gv.problem:
        rep.und("entry", gv.run.where, f"{name}: {gv.problem}")
        return False
    return True


def tuple2(gv, e):
    """(x, s) of a reverse index entry"""
    I = gv.I
    return (gv.nt(I.project(e, mk(".f", 0))), gv.nt(I.project(e, mk(".f", 1))))


# ---------------------------------------------------------------------- C06
def c06(ctx, rep, tag="default"):
    n = 0
    for name, gv in views(ctx, tag):
        if not usable(rep, name, gv):
            continue
        n += 1
        c06_view(rep, name, gv)
    return n


def match(gv, reqs, prov, rep, rule, name, plus_absent_ok=False):
    idx = {}
    for p in prov:
        idx.setdefault((p.sign, p.loops, p.y, p.e), []).append(p)
    ridx = {}
    for r in reqs:
        ridx.setdefault((r.sign, r.loops, r.y, r.e), []).append(r)
    for r in reqs:
        ps = idx.get((r.sign, r.loops, r.y, r.e), [])
        need = gv.ng(BDD.AND(r.gmin, r.ev.assume), r.loops)
        if r.sign == "-":
            # taking an absent entry out is the same as doing nothing
            need = BDD.AND(need, gv.ng(BDD.AND(BDD.atom(mk("has", gv.B, r.y)),
                                               BDD.atom(mk("has", mk("mget", gv.B, r.y), E.tup(*r.e)))), r.loops))
        have = gv.ng(BDD.OR(*[p.gmin for p in ps]), r.loops) if ps else 0
        okk, cb = implies(need, have)
        w = loc(r.ev)
        if okk:
            rep.ok(rule, w)
        elif okk is None or opaque_terms(need, have, *r.loops) or any(opaque_terms(*p.loops, p.y, p.e[0], p.e[1], p.gmin) for p in prov if p.sign == r.sign and not p.used and (p.sign, p.loops, p.y, p.e) not in ridx):
            rep.und(rule, w, f"{name}: cannot compare guards for {r.show2()}")
        else:
            rep.bad(rule, w, f"{name}: {r.what} of the link {show(r.e[0])}.{show(r.e[1])} {'to' if r.sign == '+' else 'off'} "
                    f"{show(r.y)} has no matching {'insertion into' if r.sign == '+' else 'removal from'} the reverse index"
                    + (f" when {show_cube(cb)}" if ps else ""))
        for p in ps:
            p.used = True
    for p in prov:
        rs = ridx.get((p.sign, p.loops, p.y, p.e), [])
        w = loc(p.ev)
        if not rs:
            if p.sign == "-" and p.what in ("drop", "overwrite", "clear") and False:
                continue
            if opaque_terms(p.y, p.e[0], p.e[1], *p.loops):
                rep.und(rule, w, f"{name}: unclear reverse index update")
            else:
                rep.bad(rule, w, f"{name}: the reverse index {'gains' if p.sign == '+' else 'loses'} ({show(p.e[0])}, {show(p.e[1])}) "
                        f"at {show(p.y)} without such a link change")
            continue
        may = gv.ng(BDD.OR(*[r.gmax for r in rs]), p.loops)
        if p.sign == "-":
            may = BDD.OR(may, gv.gone(p.e[0], p.loops))
        okk, cb = implies(gv.ng(BDD.AND(p.gmin, p.ev.assume), p.loops), may)
        if okk:
            rep.ok(rule, w)
        elif okk is None or opaque_terms(may, p.gmin):
            rep.und(rule, w, f"{name}: cannot compare guards")
        else:
            rep.bad(rule, w, f"{name}: the reverse index {'gains' if p.sign == '+' else 'loses'} ({show(p.e[0])}, {show(p.e[1])}) "
                    f"at {show(p.y)} also when the link does not change: {show_cube(cb)}")


Item.show2 = lambda self: f"{self.what} {self.sign} {show(self.e[0])} {show(self.e[1])} -> {show(self.y)}"


def c06_view(rep, name, gv):
    rule = "reverse-index-mirrors-link-change"
    reqs, rkeys, odd1 = gv.link_changes()
    prov, pkeys, odd2 = gv.index_updates()
    for o in odd1 + odd2:
        rep.und(rule, loc(o), f"{name}: {o.op} on {show(o.path)} not interpreted")
    if odd1 or odd2:
        return
    for p in prov:
        p.e = tuple2(gv, p.e)
    match(gv, reqs, prov, rep, rule, name)
    # every present node has an entry
    rule = "every-node-has-an-index-entry"
    for sg, ls, k, e in rkeys:
        if sg != "+":
            continue
        got = [x for x in pkeys if x[0] == "+" and x[1] == ls and x[2] is k]
        need = gv.ng(BDD.AND(e.pc, e.assume), ls)
        have = gv.ng(BDD.OR(*[x[3].pc for x in got], BDD.atom(mk("has", gv.B, k))), ls) if got else gv.ng(BDD.atom(mk("has", gv.B, k)), ls)
        okk, cb = implies(need, have)
        if okk:
            rep.ok(rule, loc(e))
        elif okk is None or opaque_terms(need, have):
            rep.und(rule, loc(e), "guards unclear")
        else:
            rep.bad(rule, loc(e), f"{name}: inserted node {show(k)} gets no entry in the reverse index when {show_cube(cb)}")
    for sg, ls, k, e in pkeys:
        if sg != "-":
            continue
        back = [x for x in pkeys if x[0] == "+" and x[1] == ls and x[2] is k and x[3].seq > e.seq]
        gone = [x for x in rkeys if x[0] == "-" and x[1] == ls and x[2] is k]
        have = gv.ng(BDD.OR(0, *[x[3].pc for x in back + gone]), ls)
        okk, cb = implies(gv.ng(BDD.AND(e.pc, e.assume), ls), have)
        if okk:
            rep.ok(rule, loc(e))
        elif okk is None or opaque_terms(have, e.pc):
            rep.und(rule, loc(e), "guards unclear")
        else:
            rep.bad(rule, loc(e), f"{name}: the entry of the present node {show(k)} is dropped from the reverse index when {show_cube(cb)}")


# ---------------------------------------------------------------------- helpers
def cover(rep, rule, gv, evs, need, may, loops, what, where, note="", post=None):
    """the events together happen whenever `need` holds and never outside `may` (both normalised)"""
    have = gv.ng(BDD.OR(0, *[BDD.AND(e.pc, 1) for e in evs]), loops)
    asm = BDD.AND(*[gv.ng(e.assume, loops) for e in evs]) if evs else 1
    if post is not None:
        have, asm = post(have), post(asm)
    okk, cb = implies(BDD.AND(need, asm), have)
    good = True
    if not okk:
        good = False
        if okk is None or opaque_terms(need, have):
            rep.und(rule, where, f"{what}: guards cannot be compared")
        elif not evs:
            rep.bad(rule, where, f"{what}: missing{note}")
        else:
            rep.bad(rule, where, f"{what}: missing when {show_cube(cb)}{note}")
    if evs and may is not None:
        okk, cb = implies(BDD.AND(have, asm), may)
        if not okk:
            good = False
            if okk is None or opaque_terms(may, have):
                rep.und(rule, where, f"{what}: guards cannot be compared")
            else:
                rep.bad(rule, where, f"{what}: also happens when {show_cube(cb)}{note}")
    if good:
        rep.ok(rule, where)
    return good


def disjoint(gv, evs):
    for i, a in enumerate(evs):
        for b in evs[i + 1:]:
            if BDD.AND(a.pc, b.pc, a.assume, b.assume):
                return False
    return True


def atom(*a):
    return BDD.atom(mk(*a))


def first_where(gv):
    return gv.run.where


def suspicious(gv, evs):
    """are there unexplained events whose terms are opaque (then nothing is decided)"""
    return any(opaque_terms(*(l for l, _ in e.loops), *(e.args), e.path, e.pc) for e in evs)


# ---------------------------------------------------------------------- transaction roles
ROLE_METHODS = {
    "RL": ("redirect_links", ["self", "a", "b"]),
    "RA": ("redirect_all_links", ["self", "a", "b"]),
    "MU": ("mutate", ["self", "a", "f"]),
    "UP": ("update", ["self", "a", "f"]),
    "DEC": ("remove", ["self", "a"]),
    "INC": ("insert", ["self", "d"]),
    "ALLOC": ("alloc", ["self", "d"]),
}


def trans_roles(ctx, rep, tag="default"):
    """which field of Transaction holds what, found by what the public methods write to"""
    out = {}
    for r, (m, names) in ROLE_METHODS.items():
        run = ctx.run("Transaction", m, names, tag=tag)
        if run is None or run.error:
            rep.und("roles", m, f"Transaction::{m} not analysed")
            return None
        ops = {"RL": ("push", "ins"), "RA": ("push", "ins"), "MU": ("push", "ins"), "UP": ("push", "ins"), "DEC": ("ins", "push"),
               "INC": ("a.insert",), "ALLOC": ("ins", "push")}[r]
        ps = {e.path for e in run.log if e.op in ops and e.path is not None}
        ps = {p for p in ps if root_of(p) is mk("param", "self")}
        if len(ps) != 1:
            if not run.I.unknown and not ps:
                rep.bad("recorded", run.where, f"Transaction::{m} records nothing")
            else:
                rep.und("roles", run.where, f"Transaction::{m} records into {len(ps)} places")
            return None
        out[r] = next(iter(ps))
    # the context id of the transaction
    P = ctx.prog(tag)
    t = adt_named(P, "Transaction")
    for p, f in fields_deep(P, t):
        ty = P.ty(t["crate"], f["t"])
        if ty["k"] == "adt" and ty["n"].split("::")[-1] == "Uuid":
            out["C"] = path_term(run.I, mk("param", "self"), p)
            break
    return out


def root_of(t):
    while t.op in ("field", "at", "vf", "nf", "ver", "mget"):
        t = t.a[0]
    return t


def as_t(roles):
    m = {mk("param", "self"): mk("param", "t")}
    return {k: sub(v, m) for k, v in roles.items()}


# ---------------------------------------------------------------------- C03
def c03(ctx, rep, tag="default"):
    roles = trans_roles(ctx, rep, tag)
    if roles is None:
        return
    c03_recorded(ctx, rep, roles, tag)
    c03_empty(ctx, rep, roles, tag)
    for name, gv in views(ctx, tag):
        if not name.startswith("commit") or not usable(rep, name, gv):
            continue
        c03_view(rep, name, gv, as_t(roles))


def c03_recorded(ctx, rep, roles, tag):
    rule = "operation-recorded-once-at-the-end"
    for r in ("RL", "RA", "MU", "UP"):
        m, names = ROLE_METHODS[r]
        run = ctx.run("Transaction", m, names, tag=tag)
        rep.used(run)
        if run.I.unknown:
            rep.und(rule, run.where, "unmodelled call")
            continue
        a, b = mk("param", names[1]), mk("param", names[2])
        guard = 1 if r[0] == "R" else BDD.NOT(atom("has", roles["INC"], a))
        evs = [e for e in run.log if e.op == "push" and e.path is roles[r] and not e.loops]
        good = [e for e in evs if e.args[0] is E.tup(a, b)]
        if len(good) < len(evs):
            rep.bad(rule, run.where, f"Transaction::{m} records {show(evs[0].args[0])}")
            continue
        other = [e for e in run.log if e.path is roles[r] and e not in evs]
        if other:
            (rep.und if opaque_terms(*other[0].args) else rep.bad)(
                rule, run.where, f"Transaction::{m} also does {other[0].op} on the recorded operations")
            continue
        have = normg(BDD.OR(0, *[e.pc for e in evs]))
        okk, cb = implies(guard, have)
        ok2, cb2 = implies(have, guard)
        if not disjoint(None, evs):
            rep.bad(rule, run.where, f"Transaction::{m} records the operation more than once")
        elif okk and ok2:
            rep.ok(rule, run.where)
        elif opaque_terms(have):
            rep.und(rule, run.where, "guard unclear")
        else:
            rep.bad(rule, run.where, f"Transaction::{m} " + (f"records nothing when {show_cube(cb)}" if not okk else
                    f"records also when {show_cube(cb2)}"))


def c03_empty(ctx, rep, roles, tag):
    rule = "is-empty-iff-nothing-pending"
    run = ctx.run("Transaction", "is_empty", ["self"], tag=tag)
    if run is None or run.error or run.st is None:
        rep.und(rule, "Transaction::is_empty", "not analysed")
        return
    rep.used(run)
    want = BDD.AND(*[atom("empty", roles[k]) for k in ("RL", "RA", "MU", "UP", "DEC", "INC", "ALLOC")])
    got = normg(run.I.bdd(run.retval()))
    if got == want:
        rep.ok(rule, run.where)
    elif opaque_terms(got) or run.I.unknown:
        rep.und(rule, run.where, "result unclear")
    else:
        ok1, cb1 = implies(got, want)
        ok2, cb2 = implies(want, got)
        rep.bad(rule, run.where, "is_empty " + (f"is true when {show_cube(cb1)}" if not ok1 else f"is false when {show_cube(cb2)}"))


def outer(gv, e):
    return strip(e.loops[0][0].a[0]) if e.loops else None


def phases(gv, T):
    """events of the graph's nodes by the recorded operation that drives them"""
    ph = {k: [] for k in ("RL", "INC", "MU", "UP", "RA", "DEC", "BD", "CHK")}
    odd = []
    for e in gv.log:
        p = e.path
        o = outer(gv, e)
        onN = p is not None and (p is gv.N or (p.op == "at" and p.a[0] is gv.N))
        if e.op == "callfn":
            f = strip(e.args[0])
            if root_of(origin_fn(f)) is mk("param", "checks"):
                ph["CHK"].append(e)
                continue
            for k in ("MU", "UP"):
                if o is T[k]:
                    ph[k].append(e)
                    break
            else:
                odd.append(e)
            continue
        if e.op == "panic" and any(s.op == "prim" and s.a[0] == "check_link_type" for a in BDD.support(e.pc) for s in subterms(a)):
            ph["CHK"].append(e)
            continue
        if not onN or e.op in ("a.alloc", "a.alloc_untyped"):
            continue
        if e.op in ("n.add_link", "n.remove_link"):
            ph["BD"].append(e)
        elif e.op == "merge" and strip(gv.I.srckey(e.args[0])) is T["INC"]:
            ph["INC"].append(e)
        elif o is not None and o in T.values() and [k for k in ph if T.get(k) is o]:
            ks = [k for k in ph if T.get(k) is o]
            for k in ks:
                ph[k].append(e)
        else:
            odd.append(e)
    return ph, odd


def origin_fn(f):
    while f.op in ("mget", "field", "vf", "elem", "key", "ver"):
        if f.op in ("elem", "key"):
            f = f.a[0].a[0]
        else:
            f = f.a[0]
    return f


def loop_problem(gv, e, T, k, role):
    """is the loop over the recorded operations complete and in recording order"""
    for l, u in e.loops:
        if strip(l.a[0]) is not T[k]:
            continue
        info = gv.I.loop_info.get(u, {})
        if info.get("rev") and k in ("MU", "UP", "RL", "RA"):
            return f"{role} are applied in reverse order"
        ex = [c for c in info.get("exits", []) if c[1]]
        if ex:
            return f"the loop over the {role} may stop early"
        b, v = gv.ver(l.a[0])
        if v:
            ch = [x for x in gv.log if x.path is b and x.seq <= v and x.op not in ("assign", "clear")]
            if ch:
                return f"the recorded {role} are changed by {ch[0].op} before they are applied"
    return None


ROLE_TEXT = {"RL": "redirects", "INC": "insertions", "MU": "mutations", "UP": "updates", "RA": "redirects of all links",
             "DEC": "removals", "BD": "bidirectional maintenance", "CHK": "checks"}


def c03_view(rep, name, gv, T):
    ph, odd = phases(gv, T)
    order = ["RL", "INC", "MU", "UP", "RA", "DEC", "BD", "CHK"]
    rule = "documented-order"
    I = gv.I
    for a, b in zip(order, order[1:]):
        if not ph[a] or not ph[b]:
            continue
        la = max(ph[a], key=lambda e: e.seq)
        fb = min(ph[b], key=lambda e: e.seq)
        rep.check(la.seq < fb.seq, rule, loc(fb), f"{name}: {ROLE_TEXT[b]} take effect before {ROLE_TEXT[a]} are complete ({loc(la)})")
    for i, a in enumerate(order):
        for b in order[i + 2:]:
            if ph[a] and ph[b] and not all(ph[c] == [] for c in order[i + 1:order.index(b)]):
                continue
            if ph[a] and ph[b]:
                la, fb = max(ph[a], key=lambda e: e.seq), min(ph[b], key=lambda e: e.seq)
                rep.check(la.seq < fb.seq, rule, loc(fb), f"{name}: {ROLE_TEXT[b]} take effect before {ROLE_TEXT[a]} are complete")
    rule = "every-operation-applied-exactly-once"
    for e in odd:
        if opaque_terms(*e.args, e.path, *(l for l, _ in e.loops)):
            rep.und(rule, loc(e), f"{name}: effect with unclear origin")
        else:
            rep.bad(rule, loc(e), f"{name}: {e.op} {show(e.path) if e.path else ''} changes nodes although no recorded operation asks for it")
    w = gv.run.where
    unclear = suspicious(gv, odd)
    for k in ("MU", "UP"):
        L = mk("loop", T[k], 0)
        el = mk("elem", L)
        f, x = mk("field", el, 1), mk("field", el, 0)
        cs = [e for e in ph[k] if e.op == "callfn"]
        good = [e for e in cs if strip(e.args[0]) is f and gv.loops(e) == frozenset([L])]
        bad = [e for e in cs if e not in good]
        for e in bad:
            if opaque_terms(*e.args):
                unclear = True
            rep.bad(rule, loc(e), f"{name}: a {ROLE_TEXT[k][:-1]} callback runs in a wrong place: {show(strip(e.args[0]))}")
        if unclear and not good:
            rep.und(rule, w, "unclear")
            continue
        if not cover(rep, rule, gv, good, 1, None, frozenset([L]), f"{name}: running each recorded {ROLE_TEXT[k][:-1]}", loc(good[0]) if good else w):
            continue
        rep.check(disjoint(gv, good), rule, loc(good[0]), f"{name}: a {ROLE_TEXT[k][:-1]} may run twice")
        for e in good:
            pr = loop_problem(gv, e, T, k, ROLE_TEXT[k])
            rep.check(pr is None, rule, loc(e), f"{name}: {pr}")
            want = mk("mget", gv.N, x)
            got = strip(e.args[1]) if len(e.args) > 1 else None
            rep.check(got is want or opaque_terms(got), rule, loc(e), f"{name}: the {ROLE_TEXT[k][:-1]} gets {show(got) if got else 'nothing'} instead of its node")
        ch = [e for e in ph[k] if e.op in ("changed", "assign") and e.path.op == "at"]
        res = mk("called", f, mk("mget", gv.N, x)) if k == "MU" else mk("apply", f, mk("mget", gv.N, x))
        ok = [e for e in ch if strip(e.path.a[1]) is x and strip(e.args[0]) is res and gv.loops(e) == frozenset([L])]
        cover(rep, rule, gv, ok, 1, None, frozenset([L]), f"{name}: storing the result of each {ROLE_TEXT[k][:-1]}", loc(good[0]))
        for e in ph[k]:
            if e.op != "callfn" and e not in ok:
                (rep.und if opaque_terms(*e.args, e.path) else rep.bad)(rule, loc(e), f"{name}: {e.op} {show(e.path)} in the {ROLE_TEXT[k]} phase")
    # removals
    L = mk("loop", T["DEC"], 0)
    xs = (mk("elem", L), mk("key", L))
    evs = [e for e in ph["DEC"] if e.op == "rem" and e.path is gv.N and strip(e.args[0]) in xs and gv.loops(e) == frozenset([L])]
    if evs or not unclear:
        cover(rep, rule, gv, evs, 1, None, frozenset([L]), f"{name}: removing each node recorded for removal", loc(evs[0]) if evs else w)
        for e in evs:
            pr = loop_problem(gv, e, T, "DEC", ROLE_TEXT["DEC"])
            rep.check(pr is None, rule, loc(e), f"{name}: {pr}")
    # insertions
    evs = [e for e in ph["INC"] if e.op == "merge" and not e.loops]
    if evs:
        cover(rep, rule, gv, evs, BDD.NOT(atom("empty", T["INC"])), None, frozenset(), f"{name}: inserting the pending nodes", loc(evs[0]))
        rep.check(disjoint(gv, evs), rule, loc(evs[0]), f"{name}: pending nodes may be inserted twice")
        for e in evs:
            b, v = gv.ver(I.srckey(e.args[0]))
            ch = [x for x in gv.log if x.path is not None and root_of(x.path) is mk("param", "t") and
                  (x.path is b or (x.path.op == "at" and x.path.a[0] is b)) and x.seq <= e.seq]
            rep.check(not ch, rule, loc(e), f"{name}: pending nodes are changed by {ch[0].op if ch else ''} before they are inserted")
    else:
        Lk = mk("loop", T["INC"], 0)
        k, n = mk("key", Lk), mk("mget", T["INC"], mk("key", Lk))
        ev2 = [e for e in ph["INC"] if e.path is gv.N and e.op in ("a.fill_back", "a.fill_back_untyped", "ins") and strip(e.args[0]) is k and strip(e.args[1]) is n]
        if ev2 or not unclear:
            cover(rep, rule, gv, ev2, 1, None, frozenset([Lk]), f"{name}: inserting the pending nodes", loc(ev2[0]) if ev2 else w)
        for e in ev2:
            pr = loop_problem(gv, e, T, "INC", ROLE_TEXT["INC"])
            rep.check(pr is None, rule, loc(e), f"{name}: {pr}")
    # redirects
    for k in ("RL", "RA"):
        L = mk("loop", T[k], 0)
        o = mk("field", mk("elem", L), 0)
        LB = mk("loop", mk("mget", gv.B, o), 0)
        evs = [e for e in ph[k] if e.op == "n.modify_link" and strip(e.args[1]) is o and gv.loops(e) == frozenset([L, LB])]
        if not evs and suspicious(gv, ph[k]):
            rep.und(rule, w, f"{name}: {ROLE_TEXT[k]} unclear")
            continue
        cover(rep, rule, gv, evs, 1, None, frozenset([L, LB]), f"{name}: applying each of the {ROLE_TEXT[k]}", loc(evs[0]) if evs else w)
        for e in evs:
            pr = loop_problem(gv, e, T, k, ROLE_TEXT[k])
            rep.check(pr is None, rule, loc(e), f"{name}: {pr}")
    # maintenance and checks have to exist at all
    rep.check(bool(ph["BD"]), rule, w, f"{name}: no bidirectional maintenance")


# ---------------------------------------------------------------------- C07
def c07(ctx, rep, tag="default"):
    roles = trans_roles(ctx, rep, tag)
    if roles is None:
        return
    T = as_t(roles)
    rule = "removal-clears-incoming-links"
    for name, gv in views(ctx, tag):
        if not name.startswith("commit") or not usable(rep, name, gv):
            continue
        n = 0
        for e in gv.log:
            if e.op != "rem" or e.path is not gv.N:
                continue
            n += 1
            x = gv.nt(e.args[0])
            ls = gv.loops(e)
            LB = mk("loop", mk("mget", gv.B, x), 0)
            el = mk("elem", LB)
            y, s = mk("field", el, 0), mk("field", el, 1)
            ls2 = ls | {LB}
            edits = [m for m in gv.log if m.path is not None and m.path.op == "at" and m.path.a[0] is gv.N and
                     (ls <= gv.loops(m)) and m.loops and e.loops]
            if not e.loops:
                edits = []
            good = [m for m in edits if m.op == "n.modify_link" and gv.loops(m) == ls2 and gv.nt(m.path.a[1]) is y and
                    gv.nt(m.args[0]) is s and gv.nt(m.args[1]) is x and is_empty_idx(gv.nt(m.args[2]))]
            if not good and (suspicious(gv, edits)):
                rep.und(rule, loc(e), f"{name}: unclear edits")
                continue
            need = gv.ng(BDD.AND(e.pc, e.assume, BDD.atom(mk("has", gv.N, y)), BDD.NOT(gv.I.eqv(x, y))), ls2)
            cover(rep, rule, gv, good, need, None, ls2, f"{name}: emptying the links that point to the removed node {show(x)}",
                  loc(good[0]) if good else loc(e))
            for m in good:
                for l, u in m.loops:
                    if gv.nt(l) is LB:
                        ex = [c for c in gv.I.loop_info.get(u, {}).get("exits", []) if c[1]]
                        rep.check(not ex, rule, loc(m), f"{name}: emptying the links may stop early")
                # links of the removed node to itself leave with the node
                own = [r for r in gv.log if r.op == "rem" and r.path is not None and r.path.op == "at" and r.path.a[0] is gv.B and
                       ls < gv.loops(r) and len(gv.loops(r)) == len(ls) + 1]
                if own and e.seq < m.seq:
                    rep.check(min(r.seq for r in own) < m.seq, "own-links-leave-first", loc(m),
                              f"{name}: links of the removed node to itself are still in the reverse index when it is read")
            for m in edits:
                if m in good:
                    continue
                if opaque_terms(m.path, *m.args):
                    rep.und(rule, loc(m), f"{name}: unclear edit")
                    continue
                rep.bad("other-links-untouched", loc(m), f"{name}: removing {show(x)} also does {m.op} {show(strip(m.path))}({', '.join(show(strip(a)) for a in m.args)})")
        rep.check(n > 0, rule, gv.run.where, f"{name}: no node is ever removed")
        for m in gv.log:
            if m.op == "n.modify_link" and m.path.a[0] is gv.N and outer(gv, m) is T["DEC"]:
                rep.ok("other-links-untouched", loc(m))



# ---------------------------------------------------------------------- C08
def chain(gv, t, depth=0):
    """if t is the end of a chain of lookups in a map, found by a while loop: (map, start, end condition proven)"""
    I = gv.I
    if t.op != "phi":
        return None
    uid, pl = t.a
    info = I.loop_info.get(uid)
    if not info or info.get("kind") != "while" or pl not in info["phis"]:
        return None
    ph = {p: (strip(i), strip(s)) for p, (i, s) in info["phis"].items() if i.op != "coll"}
    if pl not in ph:
        return None
    init, step = ph[pl]
    # other loop variables that always equal a lookup of this one
    alias = {}
    for q, (qi, qs) in ph.items():
        if q is pl:
            continue
        qt = mk("phi", uid, q)
        if qi.op == "mget" and qi.a[1] is init and qs.op == "mget" and qs.a[1] is step and qi.a[0] is qs.a[0]:
            alias[qt] = mk("mget", qi.a[0], t)
    step = sub(step, alias)
    if step.op != "mget" or step.a[1] is not t:
        return (None, init, step, False)
    fa = step.a[0]
    ex = BDD.mapatoms(normg(info.get("exit", 1)), lambda a: batom(sub(a, alias)))
    end = batom(mk("eq", *sorted((t, mk("mget", fa, t)), key=lambda z: z.id)))
    # an index without an entry has no replacement either
    okk, _ = implies(ex, BDD.OR(end, BDD.NOT(BDD.atom(mk("has", fa, t)))))
    # the exit may also be reached from the middle of a round, where an alias has not been stepped yet
    return (fa, init, step, bool(okk))


def chain_start(fa, t):
    """n for n, fa[n], fa[fa[n]]..."""
    while t.op == "mget" and t.a[0] is fa:
        t = t.a[1]
    return t


def c08(ctx, rep, tag="default"):
    roles = trans_roles(ctx, rep, tag)
    if roles is None:
        return
    T = as_t(roles)
    for name, gv in views(ctx, tag):
        if not name.startswith("commit") or not usable(rep, name, gv):
            continue
        ph, odd = phases(gv, T)
        for k in ("RL", "RA"):
            c08_phase(rep, name, gv, T, k, ph)
        # redirects of all links see the links of inserted and changed nodes
        if ph["RL"] and ph["INC"]:
            rep.check(max(e.seq for e in ph["RL"]) < min(e.seq for e in ph["INC"]) or T["RL"] is T["RA"], "plain-redirect-before-insertion",
                      loc(ph["RL"][0]), f"{name}: plain redirection also reaches links of nodes inserted by the same transaction")
        for b in ("INC", "MU", "UP"):
            if ph["RA"] and ph[b]:
                rep.check(min(e.seq for e in ph["RA"]) > max(e.seq for e in ph[b]), "redirect-all-after-changes", loc(ph["RA"][0]),
                          f"{name}: redirecting all links misses the {ROLE_TEXT[b]} of the same transaction")


def c08_phase(rep, name, gv, T, k, ph):
    I = gv.I
    w = gv.run.where
    L = mk("loop", T[k], 0)
    el = mk("elem", L)
    o, n = mk("field", el, 0), mk("field", el, 1)
    LB = mk("loop", mk("mget", gv.B, o), 0)
    eb = mk("elem", LB)
    txt = ROLE_TEXT[k]
    rule = "redirect-moves-exactly-the-links-to-the-old-node"
    if T["RL"] is T["RA"]:
        rep.bad(rule, w, "plain redirection and redirection of all links are recorded in the same place")
    good, other = [], []
    for e in ph[k]:
        if e.op == "n.modify_link" and gv.loops(e) == frozenset([L, LB]) and gv.nt(e.path.a[1]) is mk("field", eb, 0) and \
                gv.nt(e.args[0]) is mk("field", eb, 1) and gv.nt(e.args[1]) is o:
            good.append(e)
        else:
            other.append(e)
    if not good and suspicious(gv, ph[k]):
        rep.und(rule, w, f"{name}: {txt} unclear")
        return
    if not cover(rep, rule, gv, good, 1, None, frozenset([L, LB]), f"{name}: {txt}: moving every link to the old node", loc(good[0]) if good else w):
        if not good:
            return
    for e in other:
        if opaque_terms(e.path, *e.args):
            rep.und(rule, loc(e), f"{name}: unclear edit")
        else:
            rep.bad(rule, loc(e), f"{name}: {txt} also do {e.op} {show(strip(e.path))}({', '.join(show(strip(a)) for a in e.args)})")
    for e in good:
        for l, u in e.loops:
            ex = [c for c in I.loop_info.get(u, {}).get("exits", []) if c[1]]
            rep.check(not ex, rule, loc(e), f"{name}: {txt} may stop early")
    # the target
    rule = "redirect-reaches-the-final-target"
    fas = set()
    ends = set()
    for e in good:
        for g, x in I.alts(e.args[2]):
            x = strip(x)
            c = chain(gv, x)
            if c is None:
                if x is n:
                    rep.bad(rule, loc(e), f"{name}: {txt}: links are moved to the recorded replacement without following later replacements of it")
                elif opaque_terms(x) or x.op in ("loopval", "phi", "prim"):
                    rep.und(rule, loc(e), f"{name}: target {show(x)} not understood")
                else:
                    rep.bad(rule, loc(e), f"{name}: {txt}: links are moved to {show(x)}")
                continue
            fa, init, step, proven = c
            if fa is None:
                rep.und(rule, loc(e), f"{name}: chain step {show(step)} not understood")
                continue
            fas.add(fa)
            ends.add(x)
            rep.check(chain_start(fa, init) is n, rule, loc(e), f"{name}: {txt}: the chain of replacements starts at {show(init)} instead of the replacement")
            rep.check(proven, rule, loc(e), f"{name}: {txt}: the chain of replacements is left before its end")
    for fa in fas:
        evs = [e for e in gv.log if e.path is not None and (e.path is fa or (e.path.op == "at" and e.path.a[0] is fa))]
        inits = [e for e in evs if e.path is fa and e.op in ("ensure", "ins")]
        sets = [e for e in evs if e.path.op == "at" and e.op == "assign"] + [e for e in inits if strip(e.args[1]) is not strip(e.args[0])]
        main = []
        for e in sets:
            key = strip(e.path.a[1]) if e.path.op == "at" else strip(e.args[0])
            val = strip(e.args[-1])
            cv = chain(gv, val)
            vstart = chain_start(fa, cv[1]) if cv and cv[0] is fa and cv[3] else (val if val is n else None)
            if cv is not None and cv[0] is fa and not cv[3]:
                vstart = None
            # a loop variable that always equals the lookup of a chain end is the chain end itself
            if vstart is None and val.op == "phi":
                al = alias_end(gv, val, fa)
                if al is not None:
                    vstart = chain_start(fa, al)
            if vstart is None:
                if opaque_terms(val) or val.op in ("phi", "loopval"):
                    rep.und(rule, loc(e), f"{name}: replacement map gets {show(val)}")
                else:
                    rep.bad(rule, loc(e), f"{name}: {txt}: {show(key)} is mapped to {show(val)}")
                continue
            if key is o and vstart is n:
                main.append(e)
                rep.ok(rule, loc(e))
            elif key.op == "phi" and vstart is n:
                ck = chain(gv, key) or chain_var(gv, key, fa)
                rep.check(ck is not None, rule, loc(e), f"{name}: {txt}: path compression changes {show(key)}")
            else:
                rep.bad(rule, loc(e), f"{name}: {txt}: {show(key)} is mapped to {show(val)}")
        need = 1
        cover(rep, rule, gv, main, need, None, frozenset([L]), f"{name}: {txt}: recording each replacement before resolving", loc(main[0]) if main else loc(good[0]))
        # circles
        rule2 = "circular-redirect-panics"
        pan = []
        first_edit = min(e.seq for e in good)
        for e in gv.log:
            if e.op == "panic" and gv.loops(e) == frozenset([L]) and e.seq < first_edit:
                for a in BDD.support(normg(e.pc)):
                    if a.op == "eq" and o in a.a:
                        z = a.a[0] if a.a[1] is o else a.a[1]
                        cz = chain(gv, z)
                        if cz and cz[0] is fa and cz[3] and chain_start(fa, cz[1]) is n:
                            okk, cb = implies(atom_eq(o, z),
                                              gv.ng(e.pc, frozenset([L])))
                            ok2, cb2 = implies(gv.ng(e.pc, frozenset([L])), atom_eq(o, z))
                            if okk and ok2:
                                pan.append(e)
                            elif ok2 and not okk:
                                rep.bad(rule2, loc(e), f"{name}: {txt}: a circular replacement passes when {show_cube(cb)}")
                                pan.append(e)
        if main:
            rep.check(any(p.seq < main[0].seq for p in pan), rule2, loc(main[0]), f"{name}: {txt}: a circular replacement is not rejected before the links are moved")


def atom_eq(a, b):
    return batom(mk("eq", *sorted((a, b), key=lambda z: z.id)))


def chain_var(gv, t, fa):
    """a loop variable walking along the chain from anywhere"""
    info = gv.I.loop_info.get(t.a[0])
    if not info or t.a[1] not in info["phis"]:
        return None
    init, step = info["phis"][t.a[1]]
    step = strip(step)
    if step.op == "mget" and step.a[0] is fa and step.a[1] is t:
        return (fa, strip(init))
    return None


def alias_end(gv, t, fa):
    """t is a loop variable equal to fa[p] for a chain variable p whose loop ended with p == fa[p]"""
    uid, pl = t.a
    info = gv.I.loop_info.get(uid)
    if not info:
        return None
    for q in info["phis"]:
        if q is pl:
            continue
        qt = mk("phi", uid, q)
        c = chain(gv, qt)
        if c and c[0] is fa and c[3]:
            i, s = (strip(z) for z in info["phis"][pl])
            qi, qs = (strip(z) for z in info["phis"][q])
            if i.op == "mget" and i.a[0] is fa and i.a[1] is qi and s.op == "mget" and s.a[0] is fa and s.a[1] is qs:
                return c[1]
    return None


# ---------------------------------------------------------------------- recorder (C10)
def triples(gv):
    """sets that receive (node, node, link) triples"""
    out = []
    for e in gv.log:
        if e.op == "ins" and e.path is not None and len(e.args) == 1 and e.path is not gv.B and e.path is not gv.N:
            a = e.args[0]
            if a.op == "agg" and a.a[0] == "()" and len(a.a[2]) == 3:
                if e.path not in out:
                    out.append(e.path)
    return out


def recorder(gv):
    """(added, removed): the two sets the link changes are collected in"""
    if hasattr(gv, "_rec"):
        return gv._rec
    c = triples(gv)
    gv._rec = None
    if len(c) == 2:
        best = None
        for A, R in ((c[0], c[1]), (c[1], c[0])):
            rep = Report("x")
            c10_view(rep, "", gv, A, R)
            n = len(rep.violations())
            if best is None or n < best[0]:
                best = (n, A, R)
        gv._rec = best[1:]
    elif len(c) == 1 and gv.kind == "ret":
        # a graph that is being built only gains links
        gv._rec = (c[0], NOREC)
    return gv._rec


NOREC = mk("new", "no set of removed links")


def domains(gv, S, seq):
    """what the set S holds before event number seq: list of (loops, guard, element)"""
    if not (gv.kind == "ret" and S.op == "new"):
        L = mk("loop", S, 0)
        return [(frozenset([L]), 1, mk("elem", L))]
    if any(gv.nt(l).a[0] is S for e in gv.log for l, _ in e.loops):
        L = mk("loop", S, 0)
        return [(frozenset([L]), 1, mk("elem", L))]
    return [(gv.loops(e), e.pc, gv.nt(e.args[0])) for e in gv.log if e.path is S and e.op == "ins" and e.seq < seq]


def lme(gv, s):
    """the link a source position belongs to"""
    if s.op == "prim" and s.a[0] == "to_source_enum":
        return s.a[1]          # C15: the conversions are inverse to each other
    return mk("prim", "to_link_mirror_enum", s)


def c10(ctx, rep, tag="default"):
    for name, gv in views(ctx, tag):
        if not usable(rep, name, gv):
            continue
        r = recorder(gv)
        if r is None:
            t = triples(gv)
            if not t or any(opaque_terms(x) for x in t):
                rep.und("recorder", gv.run.where, f"{name}: recorder of link changes not recognised")
            else:
                rep.bad("recorder", gv.run.where, f"{name}: link changes are collected in {len(t)} sets instead of one for added and one for removed links")
            continue
        c10_view(rep, name, gv, *r)


def nonempty_guard(gv, y):
    """y is a real index"""
    if gv.I.nonempty(y):
        return 1
    return BDD.NOT(gv.I.eqv(gv.I.project(y, mk(".n")), E.c(0)))


def c10_view(rep, name, gv, A, R):
    I = gv.I
    rule = "recorder-holds-the-net-link-change"
    reqs, _, odd = gv.link_changes()
    for o in odd:
        rep.und(rule, loc(o), f"{name}: {o.op} not interpreted")
    if odd:
        return
    exp = {}
    # the record of one link is a small machine: has it changed before, did it exist at first, does it exist now.
    # A vector may hold a link several times, so that one change may be recorded more than once.
    onlyadds = not any(r.sign == "-" for r in reqs)
    mem = memories(gv)
    for r in reqs:
        t = E.tup(r.e[0], r.y, lme(gv, r.e[1]))
        t = gv.nt(t)
        possible = BDD.OR(BDD.NOT(atom("changed before", t)), BDD.AND(BDD.NOT(atom("existed at first", t)), atom("exists now", t))) if onlyadds else 1
        ne = gv.ng(nonempty_guard(gv, r.y), r.loops)
        gmin = BDD.AND(gv.ng(r.gmin, r.loops), ne)
        # a link position listed by the reverse index really holds the link, so its removal is real
        exact = r.gmin if (r.what in ("merge", "insert", "remove", "change", "add_link", "remove_link") or r.sign == "+") else r.gmax
        gmax = BDD.AND(gv.ng(exact, r.loops), ne)
        if r.sign == "-":
            gmax = BDD.OR(gmax, gv.gone(r.e[0], r.loops))
        me, op = (A, R) if r.sign == "+" else (R, A)
        asm = BDD.AND(gv.ng(r.ev.assume, r.loops), possible)
        if r.what == "modify":
            # a link moved to where it already points does not change
            same = gv.ng(I.eqv(r.ev.args[1], r.ev.args[2]), r.loops)
            gmin, gmax = BDD.AND(gmin, BDD.NOT(same)), BDD.OR(gmax, same)
        seen, before, now = (atom(x, t) for x in ("changed before", "existed at first", "exists now"))
        was = before if r.sign == "+" else BDD.NOT(before)      # the link is back as it was at first
        undone = BDD.AND(seen, was, BDD.NOT(now) if r.sign == "+" else now)
        fresh = BDD.OR(BDD.NOT(seen), BDD.AND(BDD.NOT(was), BDD.NOT(now) if r.sign == "+" else now))
        k1, k2 = ("ins", me, r.loops, t), ("rem", op, r.loops, t)
        exp.setdefault(k1, []).append((BDD.AND(gmin, fresh), BDD.AND(gmax, BDD.OR(BDD.NOT(seen), BDD.NOT(was))), r, asm))
        if op is not NOREC:
            exp.setdefault(k2, []).append((BDD.AND(gmin, undone), gmax, r, asm))
    got = {}
    for e in gv.log:
        if e.path is A or e.path is R:
            if e.op in ("ins", "rem"):
                got.setdefault((e.op, e.path, gv.loops(e), gv.nt(e.args[0])), []).append(e)
            elif e.op != "reorder":
                if opaque_terms(*e.args):
                    rep.und(rule, loc(e), f"{name}: {e.op} on the recorder")
                else:
                    rep.bad(rule, loc(e), f"{name}: {e.op} on the set of {'added' if e.path is A else 'removed'} links")
    leftover = [k for k in got if k not in exp]
    unclear = any(opaque_terms(k[3], *k[2]) for k in leftover)
    for k, xs in exp.items():
        op, st, ls, t = k
        evs = got.get(k, [])
        need = BDD.OR(*[BDD.AND(x[0], x[3]) for x in xs])
        may = BDD.OR(*[x[1] for x in xs])
        r = xs[0][2]
        possible = BDD.OR(BDD.NOT(atom("changed before", t)), BDD.AND(BDD.NOT(atom("existed at first", t)), atom("exists now", t))) if onlyadds else 1
        post = machine(gv, A, R, mem, t, r.sign, ls, possible)
        which = "added" if st is A else "removed"
        what = f"{name}: {r.what}: {'recording' if op == 'ins' else 'cancelling'} the {which} link {show(t)}"
        if not evs and unclear:
            rep.und(rule, loc(r.ev), what + ": unclear")
            continue
        cover(rep, rule, gv, evs, need, may, ls, what, loc(evs[0]) if evs else loc(r.ev), post=post)
    for k in leftover:
        e = got[k][0]
        if opaque_terms(k[3], *k[2]):
            rep.und(rule, loc(e), f"{name}: unclear recorder update")
        else:
            rep.bad(rule, loc(e), f"{name}: {k[0]} {show(k[3])} on the set of {'added' if k[1] is A else 'removed'} links, but no such link changes")
    for st in (A, R):
        rep.check(st.op == "new", rule, gv.run.where, f"{name}: the recorder does not start empty")


def memories(gv):
    """maps from links to what is remembered of their first change: map -> {(loops, key): values}"""
    out = {}
    for e in gv.log:
        if e.op in ("ensure", "ins") and e.path is not None and e.path.op == "new" and e.path.a[0] == "map" and len(e.args) == 2:
            a = gv.nt(e.args[0])
            if e.op == "ins" and BDD.AND(gv.ng(e.pc), atom("has", e.path, a)) != 0:
                continue
            if a.op == "agg" and a.a[0] == "()" and len(a.a[2]) == 3:
                v = gv.nt(e.args[1])
                if v.op == "bool" and v.a[0] in (0, 1):
                    v = E.c(v.a[0])
                out.setdefault(e.path, {}).setdefault((gv.loops(e), a), set()).add(v)
    return out


def machine(gv, A, R, mem, t, sign, ls, possible):
    """guards over the recorder, as guards over the state of the link t"""
    seen, before, now = (atom(x, t) for x in ("changed before", "existed at first", "exists now"))

    def const(M, own):
        vs = set()
        for (l, k), v in mem[M].items():
            if own and (l, k) != (ls, t):
                continue
            vs |= v
        return vs

    def f(x):
        if x.op == "has" and x.a[1] is t:
            if x.a[0] is A:
                return BDD.AND(seen, BDD.NOT(before), now)
            if x.a[0] is R:
                return BDD.AND(seen, before, BDD.NOT(now))
            if x.a[0] in mem:
                return seen
        if x.op == "eq" and any(y.op == "mget" and y.a[0] in mem and y.a[1] is t for y in x.a):
            y = next(y for y in x.a if y.op == "mget" and y.a[0] in mem)
            o = x.a[0] if x.a[1] is y else x.a[1]
            M = y.a[0]
            mine = const(M, True)
            allv = const(M, False)
            if o.op == "c" and len(mine) == 1 and all(v.op == "c" for v in allv) and len(allv) == 2:
                m = next(iter(mine))
                other = next(v for v in allv if v is not m)
                # what this operation stores means "first change is of this sign"
                added, removed = (m, other) if sign == "+" else (other, m)
                hold = lambda v: 1 if int(v.a[0]) == int(o.a[0]) else 0
                return BDD.ite(seen, BDD.ite(before, hold(removed), hold(added)), hold(m))
            if o.op == "c" and len(allv) == 1 and all(v.op == "c" for v in allv):
                return 1 if int(next(iter(allv)).a[0]) == int(o.a[0]) else 0
        return batom(x)
    return lambda g: BDD.AND(BDD.mapatoms(g, f), 1)


# ---------------------------------------------------------------------- C09
def last_before(gv, sets, seq, excl=()):
    """last event on the sets before seq, except inside the given loops"""
    m = 0
    for e in gv.log:
        if e.path in sets and e.seq < seq and not (set(gv.loops(e)) & set(excl)):
            m = max(m, e.seq)
    return m


def c09(ctx, rep, tag="default"):
    for name, gv in views(ctx, tag):
        if not usable(rep, name, gv):
            continue
        r = recorder(gv)
        if r is None:
            rep.und("recorder", gv.run.where, f"{name}: recorder of link changes not recognised")
            continue
        c09_view(rep, name, gv, *r)


def raw_loop(e, gv, want):
    for l, u in e.loops:
        if gv.nt(l) is want:
            return l, u
    return None, None


def loop_exits(gv, e):
    return [c for l, u in e.loops for c in gv.I.loop_info.get(u, {}).get("exits", []) if c[1]]


def stale(gv, e, S, excl):
    """the loop of e over S runs over an older content of S"""
    for l, u in e.loops:
        b, v = gv.ver(l.a[0])
        if b is S:
            return any(x.path is S and x.seq < e.seq and gv.after(x, v) and not (set(gv.loops(x)) & set(excl)) for x in gv.log)
    return False


def c09_view(rep, name, gv, A, R):
    I = gv.I
    w = gv.run.where
    rems = [e for e in gv.log if e.op == "n.remove_link" and e.path.op == "at" and e.path.a[0] is gv.N]
    adds = [e for e in gv.log if e.op == "n.add_link" and e.path.op == "at" and e.path.a[0] is gv.N]
    unclear = suspicious(gv, rems + adds)

    def parts(S, seq):
        for ls, g, el in domains(gv, S, seq):
            x, y, l = (gv.nt(I.project(el, mk(".f", i))) for i in range(3))
            bds = mk("prim", "match_bd_link_group", gv.node(y), mk("prim", "get_bidiretional_link_mirrors_of", gv.node(x), l))
            both = gv.ng(BDD.AND(g, atom("has", gv.N, x), atom("has", gv.N, y)), ls)
            yield ls, x, y, l, bds, both
    # withdrawn opposites
    rule = "opposites-of-removed-links-are-removed"
    if R is NOREC:
        rep.check(not rems, rule, w, f"{name}: links are removed although no link was removed")
    left = list(rems)
    for D, x, y, l, bds, both in (parts(R, min([e.seq for e in rems], default=1 << 60)) if R is not NOREC else ()):
        Lb = mk("loop", bds, 0)
        link = mk("elem", Lb)
        ls = D | {Lb}
        good = [e for e in rems if gv.loops(e) == ls and gv.nt(e.path.a[1]) is y and gv.nt(e.args[0]) is link and gv.nt(e.args[1]) is x]
        once = [e for e in rems if gv.loops(e) == D and gv.nt(e.path.a[1]) is y and gv.nt(e.args[1]) is x]
        if once and len(once) == len(rems):
            rep.bad(rule, loc(once[0]), f"{name}: for each removed link only one opposite is removed, {show(strip(once[0].args[0]))}, however many there are")
            return
        if good or not unclear:
            cover(rep, rule, gv, good, both, both, ls, f"{name}: removing the opposites of each removed link", loc(good[0]) if good else w)
        else:
            rep.und(rule, w, "unclear")
        for e in good:
            left.remove(e)
            rep.check(not loop_exits(gv, e), rule, loc(e), f"{name}: the removal of opposites may stop early")
            rep.check(not stale(gv, e, R, D), rule, loc(e), f"{name}: opposites are removed for an outdated set of removed links")
    for e in left:
        (rep.und if opaque_terms(e.path, *e.args, *(q for q, _ in e.loops)) else rep.bad)(
            rule, loc(e), f"{name}: link {show(strip(e.args[0]))} from {show(strip(e.path.a[1]))} to {show(strip(e.args[1]))} is removed although it is not the opposite of a removed link")
    # completed opposites
    left = list(adds)
    ndom = 0
    for D, x, y, l, bds, both in parts(A, min([e.seq for e in adds], default=1 << 60)):
        ndom += 1
        rule = "opposites-of-added-links-are-added"
        Lb = mk("loop", bds, 0)
        el = mk("elem", Lb)
        found = I.exists((Lb,), gv.ng(atom("prim", "contains_link", gv.node(y), el, x)))
        have_any = BDD.NOT(I.empty(bds))
        want = BDD.AND(both, have_any, BDD.NOT(gv.ng(found, D)))
        one = I.eqv(mk("len", bds), E.c(1))
        first = mk("mget", bds, E.c(0))
        good = [e for e in adds if gv.loops(e) == D and gv.nt(e.path.a[1]) is y and gv.nt(e.args[0]) is first and gv.nt(e.args[1]) is x]
        if not good:
            # the only one, found by looking at all of them
            good = [e for e in adds if gv.loops(e) == D | {Lb} and gv.nt(e.path.a[1]) is y and gv.nt(e.args[0]) is el and gv.nt(e.args[1]) is x]
        wantone = BDD.AND(want, one)
        if good or not unclear:
            cover(rep, rule, gv, good, wantone, want, D, f"{name}: adding the opposite of each added link", loc(good[0]) if good else w)
        else:
            rep.und(rule, w, "unclear")
        for e in good:
            left.remove(e)
            rep.check(not loop_exits(gv, e), rule, loc(e), f"{name}: the completion of opposites may stop early")
            rep.check(not stale(gv, e, A, D), rule, loc(e), f"{name}: opposites are added for an outdated set of added links")
            for r in rems:
                rep.check(r.seq < e.seq, "removals-before-additions", loc(e), f"{name}: opposites are added before all opposites of removed links are gone ({loc(r)})")
        # ambiguity
        rule = "several-possible-opposites-panic"
        need = BDD.AND(want, BDD.NOT(one))
        pans = [e for e in gv.log if e.op == "panic" and gv.loops(e) == D and touches(gv, e, mk("len", bds))]
        if pans:
            have = gv.ng(BDD.OR(*[e.pc for e in pans]), D)
            asm = gv.ng(BDD.AND(*[e.assume for e in pans]), D)
            okk, cb = implies(BDD.AND(need, asm), have)
            ok2, cb2 = implies(BDD.AND(have, asm), need)
            if okk and ok2:
                rep.ok(rule, loc(pans[0]))
            elif opaque_terms(have):
                rep.und(rule, loc(pans[0]), "guards unclear")
            elif not okk:
                rep.bad(rule, loc(pans[0]), f"{name}: several possible opposites do not panic when {show_cube(cb)}")
            else:
                rep.bad(rule, loc(pans[0]), f"{name}: panics although there is no ambiguity, when {show_cube(cb2)}")
            if good:
                rep.check(min(p.seq for p in pans) < min(e.seq for e in good), rule, loc(pans[0]), f"{name}: the opposite is added before the ambiguity is noticed")
        elif unclear:
            rep.und(rule, w, "unclear")
        else:
            rep.bad(rule, loc(good[0]) if good else w, f"{name}: several possible opposites do not panic")
    rule = "opposites-of-added-links-are-added"
    rep.check(ndom > 0, rule, w, f"{name}: no added link is ever completed")
    for e in left:
        (rep.und if opaque_terms(e.path, *e.args, *(q for q, _ in e.loops)) else rep.bad)(
            rule, loc(e), f"{name}: link {show(strip(e.args[0]))} from {show(strip(e.path.a[1]))} to {show(strip(e.args[1]))} is added although it is not the opposite of an added link")


def touches(gv, e, t):
    for a in BDD.support(e.pc):
        if t in subterms(strip(a)) or t in subterms(gv.nt(a)):
            return True
    return False


# ---------------------------------------------------------------------- C11
def c11(ctx, rep, tag="default"):
    rule = "added-links-are-type-checked"
    for name, gv in views(ctx, tag):
        if name == "deserialize_graph" or not usable(rep, name, gv):
            continue
        r = recorder(gv)
        if r is None:
            rep.und("recorder", gv.run.where, f"{name}: recorder of link changes not recognised")
            continue
        A, R = r
        I = gv.I
        pans = [e for e in gv.log if e.op == "panic" and any(s.op == "prim" and s.a[0] == "check_link_type" for a in BDD.support(e.pc) for s in subterms(a))]
        left = list(pans)
        ds = domains(gv, A, 1 << 60)
        wants = []
        for D, g, el in ds:
            y, l = gv.nt(I.project(el, mk(".f", 1))), gv.nt(I.project(el, mk(".f", 2)))
            res = mk("prim", "check_link_type", mk("prim", "discriminant", gv.node(y)), l)
            bad = BDD.NOT(I.is_variant(res, I.variants(E.RESULT), "Ok"))
            wants.append((D, gv.ng(BDD.AND(g, atom("has", gv.N, y), bad), D)))
        if pans and all(not e.loops for e in pans):
            # the result may be collected first and reported afterwards
            have = BDD.OR(0, *[gv.ng(e.pc) for e in pans])
            want = BDD.OR(*[I.exists(tuple(sorted(D, key=lambda q: q.id)), need) for D, need in wants])
            okk, cb = implies(want, have)
            ok2, cb2 = implies(have, want)
            if okk and ok2:
                rep.ok(rule, loc(pans[0]))
            elif suspicious(gv, pans) or opaque_terms(have) or not any(a.op == "exists" for a in BDD.support(have)):
                rep.und(rule, gv.run.where, f"{name}: link type check unclear")
            else:
                rep.bad(rule, gv.run.where, f"{name}: links of a forbidden type do not always panic: {show_cube(cb or cb2)}")
            continue
        byD = {}
        for D, need in wants:
            byD[D] = BDD.OR(byD.get(D, 0), need)
        for D, need in byD.items():
            good = [e for e in pans if gv.loops(e) == D]
            for e in good:
                if e in left:
                    left.remove(e)
            if not good and suspicious(gv, pans):
                rep.und(rule, gv.run.where, f"{name}: link type check unclear")
                continue
            where = loc(good[0]) if good else gv.run.where
            have = gv.ng(BDD.OR(0, *[e.pc for e in good]), D)
            asm = gv.ng(BDD.AND(1, *[e.assume for e in good]), D)
            okk, cb = implies(BDD.AND(need, asm), have)
            ok2, cb2 = implies(BDD.AND(have, asm), need)
            if okk and ok2:
                rep.ok(rule, where)
            elif opaque_terms(have):
                rep.und(rule, where, f"{name}: guards unclear")
            elif not good:
                rep.bad(rule, where, f"{name}: added links are not checked against their declared types")
            elif not okk:
                rep.bad(rule, where, f"{name}: an added link of a forbidden type does not panic when {show_cube(cb)}")
            else:
                rep.bad(rule, where, f"{name}: panics for a permitted link, when {show_cube(cb2)}")
            for e in good:
                for lp, u in e.loops:
                    b, v = gv.ver(lp.a[0])
                    if b is not A:
                        continue
                    later = [x for x in gv.log if x.path is A and gv.after(x, v) and x.op == "ins"]
                    rep.check(not later, rule, loc(e), f"{name}: links are added after the type check ({loc(later[0]) if later else ''})")
                late = [x for x in gv.log if x.seq > e.seq and x.path is not None and (x.path is gv.N or x.path.op == "at" and x.path.a[0] is gv.N) and x.op != "panic"]
                rep.check(not late, rule, loc(e), f"{name}: nodes change after the type check")
                rep.check(not loop_exits(gv, e), rule, loc(e), f"{name}: the type check may stop early")
        for e in left:
            (rep.und if suspicious(gv, [e]) else rep.bad)(rule, loc(e), f"{name}: a link type check panics for something that is not an added link")
        rep.check(bool(wants), rule, gv.run.where, f"{name}: no added link is ever checked")
    # the check of one link covers the link and all groups it is in
    rule = "link-checked-in-all-its-groups"
    P = ctx.prog(tag)
    b = P.default_method("NodeEnum", "check_link_type")
    if b is None:
        rep.und(rule, "NodeEnum::check_link_type", "not found")
        return
    prm = dict(prims.graph_prims())
    prm.pop(("NodeEnum", "check_link_type"))
    run = Run(ctx, P, b, ["target", "link"], prm)
    rep.used(run)
    if run.error or run.st is None or run.I.unknown:
        rep.und(rule, run.where, run.error or "unmodelled call")
        return
    I = run.I
    L = mk("loop", mk("prim", "to_log_mirror_enums", mk("param", "link")), 0)
    res = mk("prim", "check_link_type_by_group", mk("param", "target"), mk("elem", L))
    isok = I.is_variant(res, I.variants(E.RESULT), "Ok")
    want = BDD.NOT(I.exists((L,), BDD.NOT(isok)))
    got = normg(I.is_variant(run.retval(), I.variants(E.RESULT), "Ok"))
    ok1, cb1 = implies(got, want)
    ok2, cb2 = implies(want, got)
    if ok1 and ok2:
        rep.ok(rule, run.where)
    elif opaque_terms(got):
        rep.und(rule, run.where, "result unclear")
    else:
        rep.bad(rule, run.where, f"check_link_type accepts a link rejected for one of its groups, or the reverse: {show_cube(cb1 or cb2)}")
    # nobody replaces the default
    P2 = ctx.prog(tag, ("ttgraph", "witness"))
    for (tr, n), items in P2.impls.items():
        if tr.split("::")[-1] == "NodeEnum" and "check_link_type" in items:
            rep.notes.append(f"{n} overrides check_link_type")


# ---------------------------------------------------------------------- C12
def c12(ctx, rep, tag="default"):
    vs = dict(views(ctx, tag))
    gv = vs.get("commit_checked")
    if gv is None or not usable(rep, "commit_checked", gv):
        rep.und("entry", "commit_checked", "not analysed")
        return
    name = "commit_checked"
    rec = recorder(gv)
    if rec is None:
        rep.und("recorder", gv.run.where, "recorder not recognised")
        return
    A, R = rec
    I = gv.I
    w = gv.run.where
    # same changes as a plain commit
    g1 = vs.get("commit")
    if g1 is not None and not g1.problem:
        rep.used(g1.run)
        compare_effects(rep, "same-changes-as-commit", g1, gv, "commit", "commit_checked")
    ck = adt_named(gv.run.P, "GraphCheck")
    roles = check_roles(ctx, rep, tag)
    if roles is None:
        return
    lastchange = max([e.seq for e in gv.log if e.path is not None and (e.path is gv.N or e.path in (A, R) or
                      (e.path.op == "at" and e.path.a[0] is gv.N))], default=0)
    calls = [e for e in gv.log if e.op == "callfn" and root_of(origin_fn(strip(e.args[0]))) is mk("param", "checks")]
    fails = []          # (role, loops, guard of failing)
    vsR = I.variants(E.RESULT)
    for role, path in roles.items():
        S = sub(path, {mk("param", "self"): mk("param", "checks")})
        LC = mk("loop", S, 0)
        f = mk("mget", S, mk("key", LC))
        evs = [e for e in calls if strip(e.args[0]) is f]
        rule = {"node": "every-node-check-runs", "add": "every-link-add-check-runs", "rem": "every-link-remove-check-runs"}[role]
        for e in evs:
            rep.check(e.seq > lastchange, rule, loc(e), f"a {role} check runs before all changes are made")
            lp, u = raw_loop(e, gv, LC)
            ex = [c for c in I.loop_info.get(u, {}).get("exits", []) if c[1]] if u is not None else []
            rep.check(not ex, rule, loc(e), f"later {role} checks may be skipped")
        if role in ("add", "rem"):
            D = A if role == "add" else R
            L = mk("loop", D, 0)
            el = mk("elem", L)
            x, y = mk("field", el, 0), mk("field", el, 1)
            ls = frozenset([LC, L])
            nx, ny = mk("mget", gv.N, x), mk("mget", gv.N, y)
            hy = gv.ng(atom("has", gv.N, y), ls)
            optv = I.choice([(hy, E.some(ny)), (BDD.NOT(hy), E.none())])
            wantargs = (f, x, y, nx, optv)
            good = [e for e in evs if gv.loops(e) == ls and same_args(gv, e.args, wantargs, ls)]
            bad = [e for e in evs if e not in good]
            hx = gv.ng(atom("has", gv.N, x), ls)
            need = hx
            # a check that already failed need not run again
            prior = I.exists((L,), BDD.AND(hx, BDD.NOT(I.is_variant(mk("apply", *wantargs), vsR, "Ok"))))
            dom(rep, rule, gv, good, bad, need, ls, prior, [A, R], f"running each link-{role} check on every {'added' if role == 'add' else 'removed'} link", w)
            fails.append((role, LC, L, mk("apply", *wantargs), hx))
        else:
            c12_nodes(rep, rule, gv, evs, LC, f, A, R, w, fails)
    hx = mk("has", gv.N, mk("field", mk("elem", mk("loop", A, 0)), 0))

    def ax(f):
        # the source of an added link is present (C10 cancels the links of removed nodes; the check unwraps it)
        return rewrite(hx, lambda t: mk("bool", 1) if t is hx else t).bdd(f)
    c12_report(rep, gv, fails, calls, w, ax)


def same_args(gv, got, want, ls):
    if len(got) != len(want):
        return False
    for g, x in zip(got, want):
        a, b = gv.nt(g), gv.nt(x)
        if a is b:
            continue
        if not same_value(gv, a, b, ls):
            return False
    return True


def same_value(gv, a, b, ls):
    """equal guarded values"""
    I = gv.I
    xs = {v: gv.ng(g, ls) for g, v in I.alts(a)}
    ys = {v: gv.ng(g, ls) for g, v in I.alts(b)}
    if set(xs) != set(ys):
        return False
    return all(BDD.AND(xs[v], BDD.NOT(ys[v])) == 0 and BDD.AND(ys[v], BDD.NOT(xs[v])) == 0 for v in xs)


def dom(rep, rule, gv, good, bad, need, ls, prior, sets, what, w):
    """check calls over a domain; calls may stop once the check has failed"""
    for e in bad:
        if opaque_terms(*e.args, *(l for l, _ in e.loops)):
            rep.und(rule, loc(e), f"{what}: unclear call")
        else:
            rep.bad(rule, loc(e), f"{what}: check called with ({', '.join(show(strip(a)) for a in e.args[1:])}) for {', '.join(show(l.a[0]) for l in gv.loops(e))}")
    if not good and bad:
        return
    have = gv.ng(BDD.OR(0, *[e.pc for e in good]), ls)
    asm = gv.ng(BDD.AND(1, *[e.assume for e in good]), ls)
    okk, cb = implies(BDD.AND(need, BDD.NOT(prior)), have)
    if okk:
        rep.ok(rule, loc(good[0]) if good else w)
    elif opaque_terms(have):
        rep.und(rule, w, f"{what}: guards unclear")
    else:
        rep.bad(rule, loc(good[0]) if good else w, f"{what}: missing" + (f" when {show_cube(cb)}" if good else ""))
    ok2, cb2 = implies(BDD.AND(have, asm), need)
    if good and not ok2:
        rep.bad(rule, loc(good[0]), f"{what}: also when {show_cube(cb2)}")
    for e in good:
        for l, u in e.loops:
            b, v = gv.ver(l.a[0])
            if b in sets:
                later = [x for x in gv.log if x.path is b and gv.after(x, v)]
                rep.check(not later, rule, loc(e), f"{what}: on an outdated set")


def changed_domain(gv, A, R):
    """(loops, index term) that together give every inserted, changed or touched node"""
    out = []
    for e in gv.log:
        if e.path is None:
            continue
        if e.path is gv.N and e.op == "merge":
            for L1s, g, k, n in gv.arena_elems(e.args[0]):
                out.append((gv.loops(e, *L1s), k, e, "inserted"))
        elif e.path is gv.N and e.op in ("a.insert", "a.fill_back", "a.fill_back_untyped", "ins"):
            out.append((gv.loops(e), gv.nt(e.args[0]), e, "inserted"))
        elif e.path.op == "at" and e.path.a[0] is gv.N and e.op in ("changed", "assign"):
            out.append((gv.loops(e), gv.nt(e.path.a[1]), e, "changed"))
    for S, t in ((A, "added"), (R, "removed")):
        L = mk("loop", S, 0)
        out.append((frozenset([L]), mk("field", mk("elem", L), 0), None, f"touched by an {t} link" if t == "added" else "touched by a removed link"))
    return out


def c12_nodes(rep, rule, gv, evs, LC, f, A, R, w, fails):
    I = gv.I
    vsR = I.variants(E.RESULT)
    doms = changed_domain(gv, A, R)
    used = set()
    # every domain element has a check call
    priors = 0
    calls = []
    for e in evs:
        x = gv.nt(e.args[1]) if len(e.args) > 2 else None
        nd = gv.nt(e.args[2]) if len(e.args) > 2 else None
        ls = gv.loops(e)
        hit = [d for d in doms if d[0] | {LC} == ls and d[1] is x]
        if not hit or nd is not mk("mget", gv.N, x) and nd is not gv.nt(mk("mget", mk("ver", gv.N, 1 << 50), x)):
            if opaque_terms(x, nd, *ls):
                rep.und(rule, loc(e), "unclear node check call")
                return
            if not hit:
                rep.bad(rule, loc(e), f"a node check runs on {show(x)}, which is neither inserted, changed nor touched")
            else:
                rep.bad(rule, loc(e), f"a node check for {show(x)} gets {show(nd)}")
            continue
        calls.append((e, x, ls, hit[0], mk("apply", *[gv.nt(a) for a in e.args])))
        used.add(id(hit[0]))
    prior = 0
    for e, x, ls, d, ap in calls:
        hx = gv.ng(atom("has", gv.N, x), ls)
        prior = BDD.OR(prior, I.exists(tuple(sorted(ls - {LC}, key=lambda l: l.id)), BDD.AND(hx, BDD.NOT(I.is_variant(ap, vsR, "Ok")))))
    for d in doms:
        mine = [c for c in calls if c[3] is d]
        if not mine:
            rep.bad(rule, loc(d[2]) if d[2] is not None else w, f"node checks do not run on nodes that are {d[3]}")
            continue
        e, x, ls, _, ap = mine[0]
        hx = gv.ng(atom("has", gv.N, x), ls)
        have = gv.ng(BDD.OR(*[c[0].pc for c in mine]), ls)
        okk, cb = implies(BDD.AND(hx, BDD.NOT(prior)), have)
        ok2, cb2 = implies(have, hx)
        if okk and ok2:
            rep.ok(rule, loc(e))
        elif opaque_terms(have):
            rep.und(rule, loc(e), "guards unclear")
        else:
            rep.bad(rule, loc(e), f"node checks on nodes that are {d[3]}: " + (f"skipped when {show_cube(cb)}" if not okk else f"also when {show_cube(cb2)}"))
        for l, u in e.loops:
            b, v = gv.ver(l.a[0])
            if b in (A, R):
                later = [q for q in gv.log if q.path is b and gv.after(q, v)]
                rep.check(not later, rule, loc(e), "node checks use an outdated set of link changes")
        fails.append(("node", LC, None, ap, hx, tuple(sorted(ls - {LC}, key=lambda l: l.id))))


def check_roles(ctx, rep, tag):
    out = {}
    for r, m in (("node", "insert_node_check"), ("add", "insert_link_add_check"), ("rem", "insert_link_remove_check")):
        run = ctx.run("GraphCheck", m, ["self", "name", "func"], tag=tag)
        if run is None or run.error:
            rep.und("roles", m, "not analysed")
            return None
        rep.used(run)
        ps = {e.path for e in run.log if e.op in ("ins", "push", "ensure") and e.path is not None}
        if len(ps) != 1:
            rep.und("roles", run.where, f"registers in {len(ps)} places")
            return None
        out[r] = next(iter(ps))
        rule = "registered-under-its-name"
        # what is registered under the name in the end: the last of the changes, in each case
        e, left, okk = [x for x in run.log if x.path in ps][0], 1, True
        for x in reversed(run.log):
            if x.path is None or root_of(x.path) is not mk("param", "self") or x.op in ("ensure", "panic"):
                continue
            g = BDD.AND(normg(x.pc), left)
            if g == 0:
                continue
            nm, f = mk("param", "name"), mk("param", "func")
            if x.loops or not (x.path in ps and x.op == "ins" and len(x.args) == 2 and x.args[0] is nm and x.args[1] is f or
                               x.op in ("assign", "changed") and x.path.op == "at" and x.path.a[0] in ps and x.path.a[1] is nm and x.args[0] is f):
                okk, e = False, x
                break
            left = BDD.AND(left, BDD.NOT(g))
        okk = okk and left == 0
        (rep.ok(rule, run.where) if okk else rep.bad(rule, run.where, f"{m} registers {', '.join(show(a) for a in e.args)}"
                                                      + (f" only when {BDD.show(e.pc)}" if e.pc != 1 else "")))
        rm = m.replace("insert", "remove")
        r2 = ctx.run("GraphCheck", rm, ["self", "name"], tag=tag)
        if r2 is not None and not r2.error:
            rep.used(r2)
            es = [x for x in r2.log if x.path is not None and root_of(x.path) is mk("param", "self")]
            okk = len(es) == 1 and es[0].op == "rem" and es[0].path is out[r] and es[0].args[0] is mk("param", "name")
            (rep.ok(rule, r2.where) if okk or r2.I.unknown else rep.bad(rule, r2.where, f"{rm} does not remove exactly the named check"))
    if len(set(out.values())) < 3:
        rep.bad("registered-under-its-name", "GraphCheck", "two kinds of checks are registered in the same place")
    return out


def c12_report(rep, gv, fails, calls, w, ax):
    """the commit panics iff some check failed, and the panic names the failed checks"""
    I = gv.I
    rule = "panics-iff-a-check-failed"
    vsR = I.variants(E.RESULT)
    pans = [e for e in gv.log if e.op == "panic" and any(s.op == "apply" for a in BDD.support(e.pc) for s in subterms(a)) and calls and e.seq > calls[0].seq]
    byL = {}
    for fl in fails:
        LC = fl[1]
        bad = BDD.NOT(I.is_variant(fl[3], vsR, "Ok"))
        inner = (fl[2],) if fl[2] is not None else fl[5]
        byL.setdefault(LC, []).append(I.exists(inner, BDD.AND(fl[4], bad)))
    want = 0
    for LC, gs in byL.items():
        want = BDD.OR(want, I.exists((LC,), BDD.OR(*gs)))
    want = ax(gv.ng(want))
    if not pans:
        late = [e for e in gv.log if e.op == "panic" and calls and e.seq > calls[-1].seq]
        def counted(a):
            """a comparison of the number of failures with something other than zero"""
            ls = [x for x in a.a if hasattr(x, "op")] if a.op in ("lt", "le", "eq") else []
            return len(ls) == 2 and any(x.op == "len" and strip(x.a[0]).op == "new" for x in ls) and not any(x is mk("c", 0) for x in ls) \
                and not opaque_terms(*ls)
        top = [e for e in late if not e.loops]
        ats = [a for e in top for a in BDD.support(e.pc)]
        if top and ats and all(counted(a) for a in ats):
            rep.bad(rule, loc(top[0]), f"the commit panics when {BDD.show(top[0].pc)[:300]} instead of when some check failed")
        elif late:
            rep.und(rule, w, "panic condition unclear")
        else:
            rep.bad(rule, w, "failed checks do not make the commit panic")
        return
    toplevel = [e for e in pans if not e.loops]
    if not toplevel:
        rep.und(rule, w, "panic inside the check loops")
        return
    have = ax(gv.ng(BDD.OR(*[e.pc for e in toplevel])))
    # compare up to the order in which the results are combined: both are unions of exists atoms
    ok1 = same_exists(gv, have, want)
    if ok1:
        rep.ok(rule, loc(toplevel[0]))
    elif opaque_terms(have):
        rep.und(rule, loc(toplevel[0]), "panic condition unclear")
    else:
        rep.bad(rule, loc(toplevel[0]), f"the commit panics when {BDD.show(have)[:400]} instead of when some check failed")
    # names
    pushes = [e for e in gv.log if e.op in ("push", "ins") and e.seq > calls[0].seq and e.path is not None and e.path.op == "new"]
    for LC in byL:
        ps = [e for e in pushes if gv.loops(e) == frozenset([LC])]
        nm = [e for e in ps if strip(e.args[0]) is mk("key", LC)]
        if ps and not nm and not suspicious(gv, ps):
            rep.bad("failed-checks-are-named", loc(ps[0]), f"a failed check is reported as {show(strip(ps[0].args[0]))}")
        elif nm:
            have = ax(gv.ng(BDD.OR(*[e.pc for e in nm]), [LC]))
            want1 = ax(gv.ng(BDD.OR(*byL[LC]), [LC]))
            if have == want1:
                rep.ok("failed-checks-are-named", loc(nm[0]))
            elif opaque_terms(have):
                rep.und("failed-checks-are-named", loc(nm[0]), "unclear")
            else:
                rep.bad("failed-checks-are-named", loc(nm[0]), f"failed check not reported, or a passed one reported: {BDD.show(have)[:300]}")


def same_exists(gv, a, b):
    if a == b:
        return True
    return implies(a, b)[0] is True and implies(b, a)[0] is True


def compare_effects(rep, rule, g1, g2, n1, n2):
    """both runs have the same effects on the graph"""
    def eff(g):
        out = {}
        for e in g.log:
            p = e.path
            if p is None or not (p in (g.N, g.B) or (p.op == "at" and p.a[0] in (g.N, g.B))):
                continue
            k = (e.op, canon(g, strip(p)), tuple(canon(g, g.nt(a)) for a in e.args), tuple(sorted((canon(g, l) for l in g.loops(e)), key=lambda t: t.id)))
            out.setdefault(k, []).append(e)
        return out
    e1, e2 = eff(g1), eff(g2)
    for k in e1:
        if k not in e2:
            if opaque_terms(*k[2], *k[3]) or any(opaque_terms(*q[2], *q[3]) for q in e2):
                rep.und(rule, loc(e1[k][0]), "unclear")
            else:
                rep.bad(rule, loc(e1[k][0]), f"{n1} does {k[0]} {show(k[1])}({', '.join(show(a) for a in k[2])}), {n2} does not")
        else:
            f1, f2 = (BDD.OR(*[BDD.mapatoms(g.ng(BDD.AND(e.pc, e.assume), g.loops(e)), lambda t, g=g: batom(canon(g, t))) for e in es])
                      for g, es in ((g1, e1[k]), (g2, e2[k])))
            # what either run only does after a panic of its own is not compared, nor what happens when nothing is pending
            asm = BDD.AND(*[BDD.mapatoms(g.ng(g.run.assume, g.loops(e1[k][0] if g is g1 else e2[k][0])), lambda t, g=g: batom(canon(g, t))) for g in (g1, g2)])
            f1, f2 = BDD.AND(f1, asm), BDD.AND(f2, asm)
            ok1, cb1 = implies(f1, f2)
            ok2, cb2 = implies(f2, f1)
            if ok1 and ok2:
                rep.ok(rule, loc(e1[k][0]))
            elif opaque_terms(f1, f2) or ok1 is None or ok2 is None:
                rep.und(rule, loc(e1[k][0]), "guards unclear")
            elif not ok1:
                rep.bad(rule, loc(e1[k][0]), f"{n1} does {k[0]} {show(k[1])}, {n2} does not when {show_cube(cb1)}")
            else:
                rep.bad(rule, loc(e2[k][0]), f"{n2} does {k[0]} {show(k[1])}, {n1} does not when {show_cube(cb2)}")
    for k in e2:
        if k not in e1:
            if opaque_terms(*k[2], *k[3]) or any(opaque_terms(*q[2], *q[3]) for q in e1):
                rep.und(rule, loc(e2[k][0]), "unclear")
            else:
                rep.bad(rule, loc(e2[k][0]), f"{n2} does {k[0]} {show(k[1])}({', '.join(show(a) for a in k[2])}), {n1} does not")


def canon(g, t):
    """forget the numbering of local collections and loop variables"""
    m = g.__dict__.setdefault("_cn", {})

    def f(x):
        if x.op == "new":
            r = recorder(g)
            if r and x in r:
                return mk("rec", "A" if x is r[0] else "R")
            return mk("local", x.a[0])
        if x.op == "phi":
            return mk("phi", "var")
        if x.op == "while":
            return mk("while", 0)
        if x.op == "fresh":
            return mk("fresh", x.a[0])
        if x.op == "closkey":
            b = g.I.P.bodies.get(str(tuple(x.a[0]))) if isinstance(x.a[0], (tuple, list)) else g.I.P.bodies.get(x.a[0])
            return mk("closkey", b.name, x.a[1]) if b is not None else x
        return x
    return rewrite(t, f)(t)

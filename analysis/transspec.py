"""Rules over transactions: C05 (recording), C04 (misuse)."""
from term import mk, BDD, show, subterms
from engine import strip
import engine as E
from spec import *
from graphspec import trans_roles, atom, GV, views, usable, as_t, phases, root_of
import genspec as W


class Rec:
    """one recording method of Transaction"""

    def __init__(self, ctx, rep, rule, roles, m, names, trait=None, tag="default"):
        self.rep, self.rule, self.roles, self.m = rep, rule, roles, m
        self.run = r = ctx.run("Transaction", m, names, trait, tag=tag)
        self.ok = False
        self.where = f"Transaction::{m}"
        if r is None or r.error:
            rep.und(rule, self.where, "not analysed" + (f": {r.error}" if r else ""))
            return
        self.where = r.where
        rep.used(r)
        if r.I.unknown:
            rep.und(rule, self.where, f"call of {r.I.unknown[0][0]} is not modelled")
            return
        if r.st is None or r.ret is None:
            rep.bad(rule, self.where, f"Transaction::{m} never returns")
            return
        self.log = r.log
        self.I = r.I
        self.final = W.final(r)
        self.assume = r.st.assume if hasattr(r.st, "assume") else 1
        self.seen = set()
        self.ok = True

    def field(self, k):
        """final content of a field of the transaction"""
        path = []
        t = self.roles[k]
        while t.op == "field":
            path.append(t.a[1])
            t = t.a[0]
        v = self.final
        for i in reversed(path):
            v = self.I.project(v, mk(".f", i))
        return v

    def say(self, got, want, msg):
        self.rep.und(self.rule, self.where, msg) if opaque_terms(got, want) else self.rep.bad(self.rule, self.where, msg)

    def guard(self, got, want, what):
        """got must equal want, as far as the method returns"""
        A = normg(self.assume)
        got, want = BDD.AND(A, normg(got)), BDD.AND(A, normg(want))
        ok1, cb1 = implies(want, got)
        ok2, cb2 = implies(got, want)
        if ok1 and ok2:
            self.rep.ok(self.rule, self.where)
            return True
        if ok1 is None or ok2 is None:
            self.rep.und(self.rule, self.where, what + ": guard too large")
            return False
        if not ok1:
            self.say(got, want, f"Transaction::{self.m}: {what}: not when {show_cube(cb1)}")
        else:
            self.say(got, want, f"Transaction::{self.m}: {what}: also when {show_cube(cb2)}")
        return False

    def events(self, k, ops):
        """events on a field; contents of entries count as the field"""
        p = self.roles[k]
        return [e for e in self.log if e.path is not None and e.op in ops and
                (e.path is p or (e.path.op == "at" and e.path.a[0] is p))]

    def members(self, k, delta, others=()):
        """membership of a set-like field: delta maps an index to its wanted presence, all else unchanged"""
        v = self.field(k)
        kk = mk("param", "k")
        p = self.roles[k]
        want = atom("has", p, kk)
        for i, g in delta.items():
            want = BDD.ite(self.I.eqv(kk, i), g, want)
        self.guard(self.I.has(v, kk), want, f"what is in {NAMES[k]} afterwards")
        for e in self.events(k, ("ins", "rem", "clear", "append", "ensure", "push")):
            self.seen.add(e)

    def putback(self, k, i):
        """entries taken out and filled again at once: (removal, filling)"""
        p = self.roles[k]
        out = []
        for a in self.log:
            if a.path is p and a.op == "rem" and strip(a.args[0]) is i and not a.loops:
                for b in self.log:
                    if b.path is p and b.op in ("a.fill_back_untyped", "a.fill_back", "ins") and b.seq > a.seq and not b.loops and strip(b.args[0]) is i:
                        out.append((a, b))
                        break
        return out

    def calls(self, k, op, args, guard, loops=(), more=()):
        """exactly one event op(args) on a field, under the guard"""
        evs = self.events(k, (op,))
        good = []
        for e in evs:
            a = [strip(x) if x is not None else None for x in e.args[:len(args)]]
            fits = len(a) >= len(args) and all(w is None or x is w for x, w in zip(a, args))
            ls = [strip(l.a[0]) for l, _ in e.loops]
            if fits and ls == list(loops):
                good.append(e)
                self.seen.add(e)
                for l, u in e.loops:
                    info = self.I.loop_info.get(u, {})
                    if [c for c in info.get("exits", []) if c[1]]:
                        self.say(1, 1, f"Transaction::{self.m}: the loop may stop early")
        for i, a in enumerate(good):
            for b in good[i + 1:]:
                if BDD.AND(a.pc, b.pc, a.assume, b.assume):
                    self.rep.bad(self.rule, self.where, f"Transaction::{self.m}: {OPS.get(op, op)} happens twice")
        self.guard(BDD.OR(0, *[e.pc for e in good], *more), guard, f"{OPS.get(op, op)}({', '.join(show(a) if a is not None else '_' for a in args)}) on {NAMES[k]}")
        return good

    def panics(self, guard):
        """panics of the method itself, before anything is recorded"""
        evs = [e for e in self.log if e.op == "panic"]
        for e in evs:
            self.seen.add(e)
        G = normg(BDD.OR(0, *[BDD.AND(e.pc, e.assume) for e in evs]))
        want = normg(guard)
        ok1, cb1 = implies(want, G)
        ok2, cb2 = implies(G, want)
        if ok1 and ok2:
            self.rep.ok(self.rule, self.where)
        elif not ok1:
            self.say(G, want, f"Transaction::{self.m} does not panic when {show_cube(cb1)}")
        else:
            self.say(G, want, f"Transaction::{self.m} panics when {show_cube(cb2)}")

    def rest(self):
        """nothing else happens to the transaction"""
        mine = set(self.roles.values())
        for e in self.log:
            if e in self.seen or e.op == "panic":
                continue
            if e.path is None:
                if e.op == "callfn":
                    self.say(BDD.AND(e.pc), 1, f"Transaction::{self.m} calls the function {show(e.args[0])} ({loc(e)})")
                continue
            p = e.path.a[0] if e.path.op == "at" else e.path
            if p in mine or root_of(e.path) is mk("param", "self"):
                if e.op in ("reorder",):
                    continue
                if any(opaque_terms(a) for a in e.args):
                    self.rep.und(self.rule, self.where, f"{e.op} on {show(e.path)} unclear")
                else:
                    self.rep.bad(self.rule, self.where, f"Transaction::{self.m} also does {OPS.get(e.op, e.op)} on "
                                 f"{next((NAMES[k] for k, v in self.roles.items() if v is p), show(e.path))} ({loc(e)}) when {BDD.show(e.pc)}")
        self.rep.ok(self.rule, self.where)

    def returns(self, want, what):
        v = self.run.retval()
        if strip(v) is strip(want):
            self.rep.ok(self.rule, self.where)
        else:
            self.say(v, 1, f"Transaction::{self.m} returns {show(v)} instead of {what}")


NAMES = {"RL": "the redirects", "RA": "the redirects of all links", "MU": "the deferred mutations", "UP": "the deferred updates",
         "DEC": "the removals", "INC": "the pending nodes", "ALLOC": "the unfilled allocations", "C": "the context id"}
OPS = {"a.insert": "insert", "a.fill_back": "fill", "a.fill_back_untyped": "fill", "a.alloc": "allocate", "a.alloc_untyped": "allocate",
       "rem": "remove", "ins": "insert", "changed": "change", "callfn": "calling the function"}


def fresh_of(rec, op):
    """the index an allocation handed out"""
    evs = rec.events("INC", (op,))
    if not evs:
        rec.rep.bad(rec.rule, rec.where, f"Transaction::{rec.m} does not {OPS[op]} in the pending nodes")
        return None
    return strip(evs[0].args[0])


def c05(ctx, rep, tag="default"):
    roles = trans_roles(ctx, rep, tag)
    if roles is None:
        return
    prm = lambda n: mk("param", n)
    i, x, f = prm("i"), prm("x"), prm("f")
    inc, alloc = atom("has", roles["INC"], i), atom("has", roles["ALLOC"], i)

    def rec(rule, m, names, trait=None):
        r = Rec(ctx, rep, rule, roles, m, names, trait, tag)
        return r if r.ok else None

    # allocation
    rule = "an-allocation-is-pending-until-filled"
    for m, names, args in (("alloc", ["self", "d"], [prm("d")]), ("alloc_untyped", ["self"], [])):
        r = rec(rule, m, names)
        if r:
            fr = fresh_of(r, "a." + m)
            if fr is not None:
                r.calls("INC", "a." + m, [fr] + args, 1)
                r.members("ALLOC", {fr: 1})
                r.returns(fr, "the allocated index")
                r.panics(0)
                r.rest()
    rule = "filling-makes-the-node-pending"
    for m in ("fill_back", "fill_back_untyped"):
        r = rec(rule, m, ["self", "i", "x"])
        if r:
            r.calls("INC", "a." + m, [i, x], 1)
            r.members("ALLOC", {i: 0})
            for e in r.log:
                if e.op == "panic":
                    r.seen.add(e)
            r.rest()
    rule = "insertion-makes-the-node-pending"
    r = rec(rule, "insert", ["self", "x"])
    if r:
        fr = fresh_of(r, "a.insert")
        if fr is not None:
            r.calls("INC", "a.insert", [fr, x], 1)
            r.returns(fr, "the new index")
            r.panics(0)
            r.rest()
    r = rec(rule, "extend", ["self", "it"], "Extend")
    if r:
        evs = r.events("INC", ("a.insert",))
        good = [e for e in evs if len(e.loops) == 1 and strip(e.loops[0][0].a[0]) is prm("it")]
        if evs and len(good) == len(evs):
            L = good[0].loops[0][0]
            r.calls("INC", "a.insert", [None, strip(mk("elem", L))], 1, loops=[prm("it")])
            r.panics(0)
            r.rest()
        else:
            rep.und(rule, r.where, "form of extend not recognised")
    # removal
    rule = "removing-a-pending-node-cancels-it"
    r = rec(rule, "remove", ["self", "i"])
    if r:
        # a filled node is no longer an unfilled allocation
        r.assume = BDD.AND(r.assume, BDD.NOT(BDD.AND(inc, alloc)))
        r.members("INC", {i: 0})
        r.members("ALLOC", {i: 0})
        # the store forgets a cancelled allocation, or filling it is rejected
        had = r.I.bdd(E.boolv(BDD.OR(inc, alloc)))
        took = BDD.OR(0, *[e.pc for e in r.log if e.op == "rem" and e.path is not None and strip(e.path) is roles["INC"] and strip(e.args[0]) is i])
        fb = ctx.run("Transaction", "fill_back", ["self", "i", "x"], tag=tag)
        guarded = fb is not None and not fb.error and implies(BDD.NOT(atom("has", roles["ALLOC"], i)), normg(BDD.OR(0, *[BDD.AND(e.pc, e.assume) for e in fb.log if e.op == "panic"])))[0]
        okk, cb = implies(BDD.AND(normg(r.assume), had), normg(took))
        if not opaque_terms(took):
            rep.check(okk or guarded, rule, r.where, f"the store still holds the allocation when {show_cube(cb) if cb else ''}: a cancelled index can be filled")
        r.members("DEC", {i: BDD.OR(atom("has", roles["DEC"], i), BDD.AND(BDD.NOT(inc), BDD.NOT(alloc)))})
        r.panics(0)
        r.rest()
    # mutation and update
    rule = "pending-nodes-are-changed-at-once-others-deferred"
    for m, fld, opn in (("mutate", "MU", "called"), ("update", "UP", "apply")):
        r = rec(rule, m, ["self", "i", "f"])
        if not r:
            continue
        old = mk("mget", roles["INC"], i)
        new = mk(opn, f, old)
        back = []
        for a, b in r.putback("INC", i):
            if strip(b.args[1]) is new:
                r.seen |= {a, b}
                back.append(b.pc)
        r.calls("INC", "changed", [new], inc, more=back)
        for e in r.events("INC", ("changed",)):
            if strip(e.path.a[1]) is not i:
                r.seen.discard(e)
        cf = [e for e in r.log if e.op == "callfn" and strip(e.args[0]) is f and strip(e.args[1]) is old]
        for e in cf:
            r.seen.add(e)
        for n, a in enumerate(cf):
            for b in cf[n + 1:]:
                if BDD.AND(a.pc, b.pc):
                    rep.bad(rule, r.where, f"Transaction::{m} runs the function twice")
        r.guard(BDD.OR(0, *[e.pc for e in cf]), inc, "running the function on the pending node")
        r.calls(fld, "push", [E.tup(i, f)], BDD.NOT(inc))
        r.members("INC", {})
        r.panics(0)
        r.rest()
    # merging
    merges(ctx, rep, roles, "merged-nodes-are-pending", tag)
    # redirects leave the rest alone
    rule = "redirects-only-record"
    for m, fld in (("redirect_links", "RL"), ("redirect_all_links", "RA")):
        r = rec(rule, m, ["self", "i", "x"])
        if r:
            r.calls(fld, "push", [E.tup(i, x)], 1)
            r.panics(0)
            r.rest()
    # a new transaction is empty and belongs to its context
    rule = "a-new-transaction-is-empty"
    run = ctx.run("Transaction", "new", ["context"], tag=tag)
    if run is None or run.error or run.I.unknown or run.st is None:
        rep.und(rule, "Transaction::new", "not analysed")
    else:
        rep.used(run)
        v = find_agg(run.retval(), "Transaction")
        if v is None:
            rep.und(rule, run.where, "result not recognised")
        else:
            for k in ("RL", "RA", "MU", "UP", "DEC", "INC", "ALLOC"):
                t, path = roles[k], []
                while t.op == "field":
                    path.insert(0, t.a[1])
                    t = t.a[0]
                c = agg_path(run.I, v, path)
                em = run.I.empty(c) if c.op == "coll" and c.a[0].op == "new" and c.a[3] is not None else None
                if k == "INC":
                    muts = [e for e in run.log if e.path is origin(c) and e.op not in ("arena_new",)]
                    rep.check(c.op == "coll" and c.a[0].op == "new" and not muts, rule, run.where, "a new transaction holds pending nodes") \
                        if not opaque_terms(c) else rep.und(rule, run.where, "pending nodes unclear")
                elif em is None:
                    rep.und(rule, run.where, f"{NAMES[k]} of a new transaction unclear")
                else:
                    rep.check(em == 1, rule, run.where, f"{NAMES[k]} of a new transaction are not empty")
    if len(rep.obls) < 30:
        rep.und(rule, "Transaction", "fewer methods than expected")


def merges(ctx, rep, roles, rule, tag="default"):
    gr = graph_roles(ctx.prog(tag))
    r = Rec(ctx, rep, rule, roles, "merge", ["self", "graph"], tag=tag)
    if r.ok and "N" in gr:
        N = path_term(r.I, mk("param", "graph"), gr["N"])
        evs = r.events("INC", ("merge",))
        for e in evs:
            src = strip(r.I.srckey(e.args[0]))
            if src is N and not e.loops:
                r.seen.add(e)
        for e in r.events("INC", ("a.fill_back_untyped", "ins")):
            # one by one
            if len(e.loops) == 1 and strip(e.loops[0][0].a[0]) is N and not [c for c in r.I.loop_info.get(e.loops[0][1], {}).get("exits", []) if c[1]]:
                k = strip(mk("key", e.loops[0][0]))
                if strip(e.args[0]) is k and strip(e.args[1]) is mk("mget", N, k):
                    r.seen.add(e)
                    evs.append(e)
        r.guard(BDD.OR(0, *[e.pc for e in evs if e in r.seen]), 1, "moving the nodes of the graph")
        for e in r.log:
            if e.op == "panic":
                r.seen.add(e)
        r.rest()


# ---------------------------------------------------------------------- C04
def c04(ctx, rep, tag="default"):
    import arenaspec as A
    roles = trans_roles(ctx, rep, tag)
    if roles is None:
        return
    prm = lambda n: mk("param", n)
    # filling and merging in a transaction
    rule = "filling-needs-an-allocation-of-this-transaction"
    r = Rec(ctx, rep, rule, roles, "fill_back_untyped", ["self", "i", "x"], tag=tag)
    if r.ok:
        r.panics(BDD.NOT(atom("has", roles["ALLOC"], prm("i"))))
        before_effect(r, "INC")
    r = Rec(ctx, rep, rule, roles, "fill_back", ["self", "i", "x"], tag=tag)
    if r.ok:
        # the store rejects what was not allocated with a type; an additional test must not reject correct use
        G = normg(BDD.OR(0, *[BDD.AND(e.pc, e.assume) for e in r.log if e.op == "panic"]))
        ok, cb = implies(BDD.AND(G, atom("has", roles["ALLOC"], prm("i"))), 0)
        if ok:
            rep.ok(rule, r.where)
        else:
            r.say(G, 1, f"Transaction::fill_back panics when {show_cube(cb)}")
        r.calls("INC", "a.fill_back", [prm("i"), prm("x")], 1)
    rule = "merging-needs-the-same-context"
    gr = graph_roles(ctx.prog(tag))
    r = Rec(ctx, rep, rule, roles, "merge", ["self", "graph"], tag=tag)
    if r.ok and "C" in gr and "C" in roles:
        same = r.I.eqv(roles["C"], path_term(r.I, prm("graph"), gr["C"]))
        r.panics(BDD.NOT(same))
        before_effect(r, "INC")
    rule = "recording-is-not-rejected"
    for m, names in (("insert", ["self", "x"]), ("alloc", ["self", "d"]), ("alloc_untyped", ["self"]), ("remove", ["self", "i"]), ("mutate", ["self", "i", "f"]),
                     ("update", ["self", "i", "f"]), ("redirect_links", ["self", "i", "x"]), ("redirect_all_links", ["self", "i", "x"])):
        r = Rec(ctx, rep, rule, roles, m, names, tag=tag)
        if r.ok:
            r.panics(0)
    # commits
    T = as_t(roles)
    for name, gv in views(ctx, tag, whole=True):
        if name.startswith("commit") and usable(rep, name, gv):
            c04_commit(rep, name, gv, T)
    # stores
    for S in A.stores(ctx):
        if tag == "default" and S.roles(rep, "store-layout"):
            A.changes(rep, S, None, "the-store-rejects-misused-indices")
            duplicates(rep, S, "loading-two-nodes-with-one-index-is-rejected")


def before_effect(r, k):
    """no effect on the field under a panicking condition may precede the panic"""
    for e in r.log:
        if e.op == "panic":
            for x in r.events(k, ("a.fill_back", "a.fill_back_untyped", "a.insert", "merge")):
                if x.seq < e.seq and BDD.AND(x.pc, x.assume, e.pc, e.assume):
                    r.rep.bad(r.rule, r.where, f"Transaction::{r.m} rejects the misuse only after {OPS.get(x.op, x.op)} ({loc(x)})")
                    return
    r.rep.ok(r.rule, r.where)


def c04_commit(rep, name, gv, T):
    I = gv.I
    w = gv.run.where
    effects = []
    for e in gv.log:
        p = e.path
        if p is not None and (p in (gv.N, gv.B) or (p.op == "at" and p.a[0] in (gv.N, gv.B))) and e.op not in ("reorder",):
            effects.append(e)
    for rule, ok, text in (("committing-needs-the-same-context", normg(I.eqv(T["C"], gv.C)), "the transaction belongs to another context"),
                           ("committing-needs-filled-allocations", atom("empty", T["ALLOC"]), "an allocated index is unfilled")):
        bad = None
        for e in effects:
            r, cb = implies(normg(BDD.AND(e.pc, e.assume)), ok)
            if r is not True and bad is None:
                bad = (e, cb, r)
        r, cb = implies(normg(gv.run.st.assume), ok)
        if bad:
            e, cb, r = bad
            f = rep.und if r is None or opaque_terms(BDD.AND(e.pc, e.assume)) and mentions(BDD.AND(e.pc, e.assume), T["ALLOC"]) else rep.bad
            f(rule, w, f"{name} changes the graph ({e.op} at {loc(e)}) although {text}")
        elif r is not True:
            rep.bad(rule, w, f"{name} returns normally although {text}")
        else:
            rep.ok(rule, w)
    rule = "correct-transactions-are-not-rejected-up-front"
    first = min([e.seq for e in effects], default=0)
    need = BDD.AND(normg(I.eqv(T["C"], gv.C)), atom("empty", T["ALLOC"]))
    for e in gv.log:
        if e.op == "panic" and e.seq < first and not e.loops:
            r, cb = implies(BDD.AND(normg(BDD.AND(e.pc, e.assume)), need), 0)
            if r is True:
                rep.ok(rule, w)
            elif opaque_terms(e.pc):
                rep.und(rule, w, f"panic at {loc(e)}")
            else:
                rep.bad(rule, w, f"{name} panics at {loc(e)} when {show_cube(cb)}")
    # mutated, updated, removed nodes exist
    rule = "changing-or-removing-a-missing-node-is-rejected"
    for k, what in (("MU", "mutated"), ("UP", "updated"), ("DEC", "removed")):
        S = T[k]
        evs = [e for e in gv.log if e.loops and strip(e.loops[0][0].a[0]) is S]
        if not evs:
            rep.und(rule, w, f"no loop over the {what} nodes")
            continue
        L = next(l for l, _ in evs[0].loops)
        el = strip(mk("elem", L))
        x = el if k == "DEC" else strip(mk("field", el, 0))
        if k == "DEC" and not any(x in subterms(a) for e in evs for a in map(strip, e.args)):
            x = strip(mk("key", L))
        hN, hB = mk("has", gv.N, x), mk("has", gv.B, x)
        pan = [e for e in evs if e.op == "panic" and len(e.loops) == 1]
        G = gv.ng(BDD.OR(0, *[BDD.AND(e.pc, e.assume) for e in pan]), [l for l, _ in evs[0].loops])
        G = BDD.AND(G, need) if False else G
        okk, cb = implies(BDD.AND(BDD.NOT(BDD.atom(hN)), need), G)
        if not okk:
            # any effect on a missing node, or none: either way the misuse is not reported
            if any(mentions(e.pc, gv.N) and BDD.AND(gv.ng(BDD.AND(e.pc, e.assume), [l for l, _ in e.loops]), BDD.NOT(BDD.atom(hN)))
                   for e in gv.log if e.op == "panic" and e not in pan and any(strip(l.a[0]) is S for l, _ in e.loops)):
                rep.und(rule, w, f"{name}: how missing {what} nodes are rejected is not understood")
            elif opaque_terms(G):
                rep.und(rule, w, f"{name}: rejection of missing {what} nodes unclear")
            else:
                rep.bad(rule, w, f"{name} does not panic when a {what} node does not exist ({loc(evs[0])}): {show_cube(cb)}")
            continue
        # effects before the rejection
        late = None
        for e in evs:
            p = e.path
            if e.op in ("changed", "rem", "callfn") and (e.op == "callfn" or p is gv.N or (p.op == "at" and p.a[0] is gv.N)):
                g = gv.ng(BDD.AND(e.pc, e.assume), [l for l, _ in e.loops])
                if e.op != "rem" and BDD.AND(g, BDD.NOT(BDD.atom(hN))) and e.op == "callfn":
                    late = e
        if late is not None and opaque_terms(late.pc):
            late = None
        if late is not None:
            rep.bad(rule, w, f"{name} runs the function of a {what} node that does not exist ({loc(late)})")
        else:
            rep.ok(rule, w)
        both = BDD.AND(BDD.atom(hN), BDD.atom(hB))
        for e in pan:
            g = gv.ng(BDD.AND(e.pc, e.assume), [l for l, _ in e.loops])
            r, cb = implies(BDD.AND(g, both), 0)
            if r is True:
                rep.ok(rule, w)
            elif opaque_terms(g) or r is None:
                rep.und(rule, w, f"panic at {loc(e)}")
            else:
                rep.bad(rule, w, f"{name} panics at {loc(e)} on a {what} node that exists, when {show_cube(cb)}")


def mentions(g, t):
    return any(t in subterms(strip(a)) for a in BDD.support(g))


def duplicates(rep, S, rule):
    """new_from_iter: an index that was already loaded, as whatever type, is rejected; a new one is not"""
    w = S.where("new_from_iter")
    for u in S.vs:
        r = S.run("new_from_iter", ["dist", "it"], None, None, u)
        if not W.usable(rep, rule, w, r) or not W.returns(rep, rule, w, r):
            continue
        v = r.retval()
        if v.op != "agg" or v.a[0] != S.adt:
            rep.und(rule, w, show(v)[:200])
            continue
        D = origin(v.a[2][S.disp])
        Cs = {x: origin(v.a[2][S.cont[x]]) for x in S.vs}
        pan = [e for e in r.log if e.op == "panic" and len(e.loops) == 1 and strip(e.loops[0][0].a[0]) is mk("param", "it")]
        other = [e for e in r.log if e.op == "panic" and e not in pan]
        ix = None
        for e in r.log:
            if e.loops and strip(e.loops[0][0].a[0]) is mk("param", "it"):
                ix = strip(mk("field", mk("elem", e.loops[0][0]), 0))
                break
        if ix is None:
            rep.und(rule, w, "no loop over the loaded nodes")
            continue
        g = normg(BDD.OR(0, *[BDD.AND(e.pc, e.assume) for e in pan]))
        typed = {q for q in BDD.support(g) if q.op == "isv" and strip(q.a[0]) is mk("mget", D, ix)}
        for t in [None] + S.vs:
            a = {mk("has", D, ix): t is not None}
            for x in S.vs:
                a[mk("has", Cs[x], mk("nf", ix))] = x == t
            for q in typed:
                a[q] = q.a[1] == t
            h = BDD.mapatoms(g, lambda q: (1 if a[q] else 0) if q in a else BDD.atom(q))
            ws = f"{w}, a {u} " + ("under a new index" if t is None else f"under the index of a {t}")
            if h == (0 if t is None else 1):
                rep.ok(rule, ws)
            elif opaque_terms(h) or h not in (0, 1) or (t is not None and other) or r.I.unknown or (typed and t != u):
                # all nodes of this run are of type u: what a look into the store of another type finds is not seen
                rep.und(rule, ws, f"panics when {BDD.show(h)[:200]}")
            elif t is None:
                rep.bad(rule, ws, "is rejected")
            else:
                rep.bad(rule, ws, "is not rejected")

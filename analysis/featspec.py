"""Rule over the build without the checking feature: C23."""
from term import mk, BDD, show, subterms
from spec import *
import graphspec as G
from graphspec import views, usable, compare_effects
import transspec as X
import switchspec as Z

RULES = (G.c03, X.c04, X.c05, G.c06, G.c07, G.c08, G.c09, G.c10, Z.c19)


def c23(ctx, rep):
    ctx.dump("nodebug")         # a build error here is a violation
    rep.ok("builds-without-the-feature", "/repo")
    on = {n: g for n, g in views(ctx, "default")}
    off = {n: g for n, g in views(ctx, "nodebug")}
    for n in ("commit", "switch_context", "deserialize_graph"):
        a, b = on.get(n), off.get(n)
        if not usable(rep, n, a) or not usable(rep, n, b):
            continue
        compare_effects(rep, "the-same-effects", a, b, n + " with checks", n + " without checks")
        rule = "checks-are-disabled"
        for e in b.log:
            if e.op == "panic" and any(s.op == "prim" and s.a[0] == "check_link_type" for t in BDD.support(e.pc) for s in subterms(t)):
                rep.bad(rule, loc(e), f"{n} without checks rejects link types when {BDD.show(e.pc)[:200]}")
                break
        else:
            rep.ok(rule, n)
        rule = "no-rejection-of-its-own"
        at = {loc(e) for e in a.log if e.op == "panic"}
        own = [e for e in b.log if e.op == "panic" and loc(e) not in at]
        known = {BDD.mapatoms(a.ng(e.pc, a.loops(e)), lambda t: batom(G.canon(a, t))) for e in a.log if e.op == "panic"}
        fine = True
        for e in own:
            g = b.ng(BDD.AND(e.pc, e.assume), b.loops(e))
            if g == 0 or BDD.mapatoms(b.ng(e.pc, b.loops(e)), lambda t: batom(G.canon(b, t))) in known:
                continue
            fine = False
            if opaque_terms(g) or e.loops or b.I.unknown:
                rep.und(rule, loc(e), f"a panic that only {n} without checks has, when {BDD.show(g)[:200]}")
            else:
                rep.bad(rule, loc(e), f"only without checks {n} panics when {BDD.show(g)[:200]}")
        if fine:
            rep.ok(rule, n)
    # what the other rules find only without the feature
    for rule in RULES:
        both = []
        for tag in ("default", "nodebug"):
            s = Report(rule.__name__.upper())
            rule(ctx, s, tag)
            both.append(s)
        known = {o.rule for o in both[0].obls if o.status != "ok"}
        rep.functions |= both[1].functions
        rep.calls += both[1].calls
        rep.events += both[1].events
        for o in both[1].obls:
            name = o.rule + "-without-the-feature"
            if o.status == "ok":
                rep.ok(name, o.where)
            elif o.status == "undecided" or o.rule in known:
                rep.und(name, o.where, o.msg)
            else:
                rep.bad(name, o.where, o.msg)

"""Rules over the convenience macros: C21.  Every form of every macro is expanded in a witness and the
expansion is compared with the documented meaning, for every type the node may have."""
import os
from term import mk, BDD, show, subterms
import engine as E
from engine import strip, agg, c, tup
from spec import *
import build
import genspec as W

DECL = '''#![allow(warnings)]
use ttgraph::*;
use std::collections::BTreeSet;
#[derive(TypedNode)]
pub struct NodeA { pub val: usize, pub l: NodeIndex }
#[derive(TypedNode)]
pub struct NodeB { pub val: usize, pub s: BTreeSet<NodeIndex> }
#[derive(TypedNode)]
pub struct NodeC { pub val: usize, pub name: String }
node_enum! { pub enum N { A(NodeA), B(NodeB), B2(NodeB), C(NodeC) } }
pub mod sub {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct NodeX { pub val: usize, pub l: NodeIndex }
  node_enum! { pub enum M { X(NodeX), Y(NodeX), A(super::NodeA) } }
}
'''

PATHS = (("N::A", "N", "A"), ("N::B", "N", "B"), ("N::B2", "N", "B2"), ("N::C", "N", "C"),
         ("crate::N::B2", "N", "B2"), ("self::N::A", "N", "A"), ("sub::M::Y", "sub::M", "Y"), ("crate::sub::M::A", "sub::M", "A"))

TY = {("N", "A"): "NodeA", ("N", "B"): "NodeB", ("N", "B2"): "NodeB", ("N", "C"): "NodeC", ("sub::M", "X"): "sub::NodeX",
      ("sub::M", "Y"): "sub::NodeX", ("sub::M", "A"): "NodeA"}
VARIANTS = {"N": ("A", "B", "B2", "C"), "sub::M": ("X", "Y", "A")}

MUT = (("mut_node!({t}, {p}, {i}, n, {{ {b} }})", ""), ("mut_node!({t}, {p}, {i}, |n| {{ {b} }})", ""),
       ("mut_node!({t}, {p}, {i}, move |n| {{ {b} }})", "move"))
UPD = (("update_node!({t}, {p}, {i}, n, {{ {b} }})", ""), ("update_node!({t}, {p}, {i}, |n| {{ {b} }})", ""),
       ("update_node!({t}, {p}, {i}, move |n| {{ {b} }})", "move"))


def real_source():
    """uses of the macros on graphs and transactions, as the documentation shows them"""
    out = [DECL]
    for n, (p, e, v) in enumerate(PATHS):
        t = TY[(e, v)]
        out.append(f"pub fn get{n}(g: &Graph<{e}>, i: NodeIndex) -> Option<&{t}> {{ get_node!(g, {p}, i) }}")
        out.append(f"pub fn iter{n}(g: &Graph<{e}>) -> Vec<(NodeIndex, &{t})> {{ iter_nodes!(g, {p}).collect() }}")
        out.append(f"pub fn type{n}(g: &Graph<{e}>) -> Vec<(NodeIndex, &{e})> {{ g.iter_type(<{e} as NodeEnum>::Discriminant::{v}).collect() }}")
        out.append(f"pub fn alloc{n}(t: &mut Transaction<{e}>) -> NodeIndex {{ alloc_node!(t, {p}) }}")
        out.append(f"pub fn disc{n}() -> <{e} as NodeEnum>::Discriminant {{ discriminant!({p}) }}")
        for k, (m, mv) in enumerate(MUT):
            cap = "'static, " if mv else ""
            out.append(f"pub fn rmut{k}_{n}(t: &mut Transaction<{cap}{e}>, i: NodeIndex, v: usize) {{ " +
                       m.format(t="t", p=p, i="i", b="n.val = v;" if mv else "n.val = 7;") + " }")
        for k, (m, mv) in enumerate(UPD):
            cap = "'static, " if mv else ""
            out.append(f"pub fn rupd{k}_{n}(t: &mut Transaction<{cap}{e}>, i: NodeIndex, v: usize) {{ " +
                       m.format(t="t", p=p, i="i", b=f"{t} {{ val: {'v' if mv else '9'}, ..n }}") + " }")
    # blocks may use what surrounds them, arguments may be any expression
    out.append("pub fn borrow_mut(v: &usize, t: &mut Transaction<'_, N>, i: &[NodeIndex]) { let k = *v; mut_node!(t, N::B, i[0], move |n| { n.val = k; n.s.clear(); }); }")
    out.append("pub fn borrow_upd<'a>(v: &'a usize, t: &mut Transaction<'a, N>, i: &[NodeIndex]) { update_node!(t, N::B, i[0], move |n| { NodeB { val: *v, ..n } }); }")
    return "\n".join(out) + "\n"


def probe_source():
    """a stand-in for a transaction that hands the closure a node at once"""
    out = [DECL]
    for e in VARIANTS:
        q = e.split("::")[-1]
        out.append(f'''pub struct P{q} {{ pub node: {e} }}
impl P{q} {{
  pub fn mutate<F: FnOnce(&mut {e})>(self, i: NodeIndex, f: F) -> (NodeIndex, {e}) {{ let mut n = self.node; f(&mut n); (i, n) }}
  pub fn update<F: FnOnce({e}) -> {e}>(self, i: NodeIndex, f: F) -> (NodeIndex, {e}) {{ (i, f(self.node)) }}
}}''')
    for n, (p, e, v) in enumerate(PATHS):
        q = e.split("::")[-1]
        for k, (m, mv) in enumerate(MUT):
            out.append(f"pub fn pmut{k}_{n}(t: P{q}, i: NodeIndex) -> (NodeIndex, {e}) {{ " + m.format(t="t", p=p, i="i", b="n.val = 7;") + " }")
        for k, (m, mv) in enumerate(UPD):
            out.append(f"pub fn pupd{k}_{n}(t: P{q}, i: NodeIndex) -> (NodeIndex, {e}) {{ " +
                       m.format(t="t", p=p, i="i", b=f"{TY[(e, v)]} {{ val: 9, ..n }}") + " }")
    return "\n".join(out) + "\n"


def c21(ctx, rep):
    rule = "the-macros-expand-to-code-that-compiles"
    try:
        P = ctx.prog_of("macros", real_source())
    except build.BuildError as ex:
        if "macros" not in str(ex):
            raise
        rep.bad(rule, "macros", "documented uses of the macros do not compile: " + first_error(ex.log))
        return
    rep.ok(rule, "macros")
    try:
        Q = ctx.prog_of("probes", probe_source())
    except build.BuildError as ex:
        Q = None
        rep.und(rule, "probes", first_error(ex.log))
    for n, (p, e, v) in enumerate(PATHS):
        reads(ctx, rep, P, n, p, e, v)
        if Q is not None:
            writes(ctx, rep, Q, n, p, e, v)
    W.floor(rep, "get-node-yields-exactly-the-variant", 30)


def first_error(log):
    ls = (log or "").splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error"):
            return " ".join(x.strip() for x in ls[i:i + 4])
    return (log or "")[-300:]


def fn(ctx, rep, rule, P, name, names, facts=None):
    bs = P.find(name, "witness")
    if not bs:
        rep.und(rule, name, "not found")
        return None
    r = Run(ctx, P, bs[0], names, facts=facts)
    if not W.usable(rep, rule, name, r):
        return None
    return r


def isv_facts(base, has, v):
    """base holds the node of type v (or nothing)"""
    def facts(t):
        if t.op == "has":
            return has
        if t.op == "isv" and strip(t.a[0]) is base and t.a[1] not in ("Some", "None"):
            return t.a[1] == v
        return None
    return facts


def reads(ctx, rep, P, n, p, e, v):
    gr = graph_roles(P)
    g, i = mk("param", "g"), mk("param", "i")
    # get_node!
    rule = "get-node-yields-exactly-the-variant"
    r0 = fn(ctx, rep, rule, P, f"get{n}", ["g", "i"])
    if r0 is not None and "N" in gr:
        node = mk("mget", path_term(r0.I, g, gr["N"]), i)
        for u in (None,) + VARIANTS[e]:
            w = f"get_node!(g, {p}, i) " + (f"of a {u}" if u else "without a node")
            r = fn(ctx, rep, rule, P, f"get{n}", ["g", "i"], isv_facts(node, u is not None, u))
            if r is None or not W.returns(rep, rule, w, r):
                continue
            want = E.some(mk("vf", node, v, 0)) if u == v else E.none()
            got = r.retval()
            other = wrongly_found(got, g, i)
            if other:
                rep.bad(rule, w, "gives a node found by a search that other indices than the given one satisfy: " + other)
                continue
            judge(rep, rule, w, r, got, want)
            if W.panics(r):
                rep.bad(rule, w, "panics")
    # iter_nodes!
    rule = "iter-nodes-yields-the-nodes-of-the-variant"
    w = f"iter_nodes!(g, {p})"
    a, b = fn(ctx, rep, rule, P, f"iter{n}", ["g"]), fn(ctx, rep, rule, P, f"type{n}", ["g"])
    if a is not None and b is not None and W.returns(rep, rule, w, a) and W.returns(rep, rule, w, b):
        xs, ys = entries(a), entries(b)
        if xs is None or ys is None:
            rep.und(rule, w, "not understood")
        else:
            conv = []
            for ls, gd, t in ys:
                k, nd = a.I.project(t, mk(".f", 0)), a.I.project(t, mk(".f", 1))
                nd = b.I.canon(b.st, nd)
                conv.append((tuple(strip(l) for l in ls), only(gd, nd, v), strip(tup(k, mk("vf", nd, v, 0)))))
            got = []
            for ls, gd, t in xs:
                k, nd = a.I.project(t, mk(".f", 0)), a.I.project(t, mk(".f", 1))
                nd = a.I.canon(a.st, nd)
                base = nd.a[0] if nd.op == "vf" else nd
                got.append((tuple(strip(l) for l in ls), only(gd, base, v), strip(tup(k, nd))))
            if got == conv:
                rep.ok(rule, w)
            elif opaque_terms(*[x[2] for x in got]) or a.I.unknown:
                rep.und(rule, w, "not understood")
            else:
                rep.bad(rule, w, "yields " + "; ".join(f"{show(t)} for {[show(l) for l in ls]} if {BDD.show(gd)}" for ls, gd, t in got)[:400] +
                        " instead of " + "; ".join(f"{show(t)} for {[show(l) for l in ls]}" for ls, gd, t in conv)[:400])
        # the panic of the expansion is for nodes of other types only
        bad = 0
        for ev in a.log:
            if ev.op == "panic":
                for at in BDD.support(ev.pc):
                    if at.op == "isv":
                        bad = BDD.OR(bad, only(ev.pc, at.a[0], v))
        if bad:
            rep.und(rule, w, "panics on nodes of its own type") if opaque_terms(bad) else rep.bad(rule, w, "panics on nodes of its own type")
    # alloc_node!
    rule = "alloc-node-allocates-the-variant"
    w = f"alloc_node!(t, {p})"
    r = fn(ctx, rep, rule, P, f"alloc{n}", ["t"])
    d = None
    if r is not None and W.returns(rep, rule, w, r):
        evs = [ev for ev in r.log if ev.op in ("a.alloc", "a.alloc_untyped")]
        if len(evs) != 1 or evs[0].op != "a.alloc" or evs[0].loops or evs[0].pc != 1:
            rep.bad(rule, w, f"{len(evs)} allocations: {[x.op for x in evs]}") if not r.I.unknown else rep.und(rule, w, "")
        else:
            d = evs[0].args[1]
            ok = d.op == "agg" and d.a[1] == v and strip(r.retval()) is strip(evs[0].args[0])
            rep.check(ok, rule, w, f"allocates for {show(d)} and returns {show(r.retval())}") if not opaque_terms(d, r.retval()) else rep.und(rule, w, show(d))
    # discriminant!
    rule = "discriminant-names-the-variant"
    w = f"discriminant!({p})"
    r = fn(ctx, rep, rule, P, f"disc{n}", [])
    if r is not None and W.returns(rep, rule, w, r):
        x = r.retval()
        if opaque_terms(x):
            rep.und(rule, w, show(x))
        else:
            rep.check(x.op == "agg" and x.a[1] == v, rule, w, f"is {show(x)}")


def wrongly_found(got, g, i):
    """the condition of a search through the graph, if it holds for a node under another index than i"""
    for t in subterms(got):
        if t.op != "exists" or len(t.a[0]) != 1 or not any(x is g for x in subterms(t.a[0][0])):
            continue
        ats = BDD.support(t.a[1])
        if any(a.op not in ("eq", "lt") for a in ats):
            continue    # depends on more than the index

        def about(a):
            return any(x is i for x in subterms(a)) and any(x.op in ("key", "elem") for x in subterms(a))
        if not all(about(a) for a in ats):
            continue
        left = BDD.mapatoms(t.a[1], lambda a: 0 if a.op == "eq" else BDD.atom(a))
        if left:
            return BDD.show(t.a[1])
    return None


def only(g, base, v):
    """guard for nodes of type v"""
    base = strip(base)

    def at(t):
        if t.op == "isv" and strip(t.a[0]) is base:
            return 1 if t.a[1] == v else 0
        return BDD.atom(t)
    return BDD.mapatoms(g, at)


def entries(r):
    v = r.retval()
    if v.op != "coll" or v.a[3] is None:
        return None
    return [(k.a[0], k.a[1], k.a[2]) for k in v.a[3] if k.a[1] != 0]


def judge(rep, rule, w, r, got, want):
    if strip(got) is strip(want):
        rep.ok(rule, w)
    elif got.op == "choice" or opaque_terms(got) or r.I.unknown:
        rep.und(rule, w, f"is {show(got)[:300]}")
    else:
        rep.bad(rule, w, f"is {show(got)[:300]} instead of {show(want)[:300]}")


def writes(ctx, rep, P, n, p, e, v):
    node, i = mk("nf", mk("param", "t")), mk("param", "i")
    for kind, forms in (("mut", MUT), ("upd", UPD)):
        rule = ("mut" if kind == "mut" else "update") + "-node-runs-the-block-on-the-variant-only"
        for k, (m, _) in enumerate(forms):
            for u in VARIANTS[e]:
                w = m.format(t="t", p=p, i="i", b="..") + f" on a {u}"
                r = fn(ctx, rep, rule, P, f"p{kind}{k}_{n}", ["t", "i"], isv_facts(node, None, u))
                if r is None:
                    continue
                pan = W.panics(r)
                if u != v:
                    if r.st is None or pan == 1:
                        rep.ok(rule, w)
                    elif opaque_terms(pan) or r.I.unknown:
                        rep.und(rule, w, "")
                    else:
                        rep.bad(rule, w, f"does not panic but gives {show(r.retval())[:300]}")
                    continue
                if r.st is None or pan:
                    rep.und(rule, w, "") if opaque_terms(pan) or r.I.unknown else rep.bad(rule, w, "panics")
                    continue
                got = r.retval()
                x = mk("vf", node, v, 0)
                adt = P.adts.get("witness::" + TY[(e, v)])
                fs = [f["n"] for f in adt["vs"][0]["f"]]
                vals = [mk("field", x, j) for j in range(len(fs))]
                vals[fs.index("val")] = c(7 if kind == "mut" else 9)
                want = agg("witness::" + TY[(e, v)], None, *vals)
                ix, nd = r.I.project(got, mk(".f", 0)), r.I.project(got, mk(".f", 1))
                if strip(ix) is not i:
                    judge(rep, rule, w + ", index", r, ix, i)
                    continue
                # compare variant and fields of the node that comes back
                okv = r.I.is_variant(nd, tuple((j, j, q) for j, q in enumerate(VARIANTS[e])), v)
                if okv != 1:
                    if opaque_terms(nd):
                        rep.und(rule, w, show(nd)[:300])
                    else:
                        rep.bad(rule, w, f"gives back {show(nd)[:300]}, not a {v}")
                    continue
                y = r.I.project(nd, mk(".v", v, 0))
                bad = None
                for j, f in enumerate(fs):
                    z = strip(r.I.canon(r.st, r.I.project(y, mk(".f", j))))
                    if z is not strip(vals[j]):
                        bad = (f, z, vals[j])
                if bad is None:
                    rep.ok(rule, w)
                elif opaque_terms(bad[1]) or bad[1].op == "choice":
                    rep.und(rule, w, f"field {bad[0]} is {show(bad[1])}")
                else:
                    rep.bad(rule, w, f"field {bad[0]} is {show(bad[1])} instead of {show(bad[2])}")

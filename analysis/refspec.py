"""Rule over declarations and uses that must not build: C26.  Every witness differs from an accepted program in
one place only; the compiler has to refuse it."""
import concurrent.futures
import glob
import os
import re
import subprocess
import build
import wit
from spec import *

BASE = '''#![allow(warnings)]
use ttgraph::*;
use std::collections::*;

#[derive(TypedNode)]
#[phantom_group(gp)]
pub struct NodeA {
  #[group(g, h)]
  pub x: NodeIndex,
  #[group(g)]
  pub s: HashSet<NodeIndex>,
  pub v: Vec<NodeIndex>,
  pub n: usize,
}

#[derive(TypedNode)]
pub struct NodeB {
  #[group(g)]
  pub y: NodeIndex,
  pub t: BTreeSet<NodeIndex>,
  pub m: String,
}

#[derive(TypedNode)]
pub struct NodeC {
  pub k: u8,
}

node_enum! {
  pub enum N {
    A(NodeA),
    B(NodeB),
    C(NodeC),
  }
  group! {
    ab {A, B},
    bc {B, C},
  }
  bidirectional! {
    A.x <-> B.y,
    A.s <-> ab.g,
    A.gp <-> B.t,
  }
  link_type! {
    A.x: B,
    B.t: {A, bc},
    ab.g: bc,
  }
}

#[derive(TypedNode)]
pub struct NodeM {
  pub z: NodeIndex,
}

node_enum! {
  pub enum M {
    A(NodeM),
  }
}

pub fn shared<T: Send + Sync>() {}
pub fn new_b() -> NodeB { NodeB { y: NodeIndex::empty(), t: BTreeSet::new(), m: String::new() } }

pub fn uses(mut g: Graph<N>, mut h: Graph<M>, mut t: Transaction<N>, mut u: Transaction<M>, i: NodeIndex) {
  let _: Option<&NodeB> = get_node!(g, N::B, i);
  let _: Vec<(NodeIndex, &NodeB)> = iter_nodes!(g, N::B).collect();
  let j = alloc_node!(t, N::B);
  t.fill_back(j, N::B(new_b()));
  mut_node!(t, N::B, i, n, { n.m.clear(); });
  mut_node!(t, N::B, i, |n| { n.m.clear(); });
  update_node!(t, N::B, i, n, { NodeB { m: String::new(), ..n } });
  update_node!(t, N::B, i, |n| { NodeB { m: String::new(), ..n } });
  let _: <N as NodeEnum>::Discriminant = discriminant!(N::B);
  t.insert(N::B(new_b()));
  g.commit(t);
  h.commit(u);
  //end
}
'''

V = "    C(NodeC),\n"
L = "    ab.g: bc,\n"
BI = "    A.gp <-> B.t,\n"
G = "    bc {B, C},\n"
END = "  //end\n"
S = "#[derive(TypedNode)]\npub struct NodeC {\n  pub k: u8,\n}\n"


def add(at, what):
    return (at, at + what)


BD, LT, GR, EN, ST, US = ("bidirectional-names-exist", "link-type-names-exist", "group-names-exist", "a-variant-holds-one-node-type",
                          "only-links-are-grouped", "uses-name-declared-variants")
# (rule, what must be refused, replaced text, replacement)
BAD = [
    (BD, "an unknown variant on the left", *add(BI, "    Q.x <-> B.y,\n")),
    (BD, "an unknown variant on the right", *add(BI, "    B.y <-> Q.x,\n")),
    (BD, "an unknown link on the left", *add(BI, "    A.zz <-> B.y,\n")),
    (BD, "an unknown link on the right", *add(BI, "    B.y <-> A.zz,\n")),
    (BD, "a data field on the left", *add(BI, "    A.n <-> B.y,\n")),
    (BD, "a data field on the right", *add(BI, "    B.y <-> A.n,\n")),
    (BD, "a link of another variant on the left", *add(BI, "    A.y <-> B.y,\n")),
    (BD, "a link of another variant on the right", *add(BI, "    A.x <-> B.x,\n")),
    (BD, "a link only some members of the group have", *add(BI, "    ab.x <-> B.y,\n")),
    (BD, "a link only some members of the group on the right have", *add(BI, "    B.y <-> ab.x,\n")),
    (BD, "a variant without links", *add(BI, "    C.k <-> B.y,\n")),
    (BD, "a link group of another variant", *add(BI, "    B.gp <-> B.y,\n")),
    (BD, "an unknown variant with an empty link group", *add(BI, "    Q.gp <-> B.y,\n")),
    (BD, "unknown variants on both sides", *add(BI, "    Q.x <-> R.y,\n")),
    (BD, "unknown links on both sides", *add(BI, "    A.zz <-> B.zz,\n")),
    (BD, "a node type instead of a variant", *add(BI, "    NodeA.x <-> NodeB.y,\n")),
    (BD, "an unknown link opposite an empty link group", *add(BI, "    A.gp <-> B.zz,\n")),
    (BD, "an unknown link of a group", *add(BI, "    ab.zz <-> B.y,\n")),
    (BD, "a single arrow", *add(BI, "    A.x -> B.y,\n")),
    (BD, "no link name", *add(BI, "    A.x <-> B,\n")),
    (BD, "a nested path", *add(BI, "    A.x.y <-> B.y,\n")),
    (BD, "a missing separator", *add(BI, "    A.x <-> B.y A.s <-> B.t,\n")),
    (LT, "an unknown variant", *add(L, "    Q.x: B,\n")),
    (LT, "an unknown link", *add(L, "    A.zz: B,\n")),
    (LT, "a data field", *add(L, "    A.n: B,\n")),
    (LT, "a link of another variant", *add(L, "    A.y: B,\n")),
    (LT, "a link only some members of the group have", *add(L, "    ab.x: B,\n")),
    (LT, "a variant without links", *add(L, "    C.k: B,\n")),
    (LT, "an unknown target", *add(L, "    A.s: Q,\n")),
    (LT, "an unknown target among others", *add(L, "    A.s: {B, Q},\n")),
    (LT, "an unknown target before others", *add(L, "    A.s: {Q, B},\n")),
    (LT, "a link as target", *add(L, "    A.s: x,\n")),
    (LT, "a missing separator", *add(L, "    A.s: B B.y: A,\n")),
    (LT, "a missing separator between targets", *add(L, "    A.s: {A B},\n")),
    (LT, "an unknown variant without targets of its own", *add(L, "    Q.x: {A, B},\n")),
    (LT, "an unknown variant with an unknown link", *add(L, "    Q.zz: A,\n")),
    (LT, "an unknown link of a group", *add(L, "    ab.zz: A,\n")),
    (LT, "a link group of another variant", *add(L, "    B.gp: A,\n")),
    (LT, "a node type as target", *add(L, "    A.s: NodeB,\n")),
    (LT, "a node type instead of a variant", *add(L, "    NodeA.s: B,\n")),
    (LT, "no target", *add(L, "    A.s,\n")),
    (LT, "a path as target", *add(L, "    A.s: B.y,\n")),
    (GR, "an unknown member", *add(G, "    q {Q},\n")),
    (GR, "an unknown member among others", *add(G, "    q {A, Q, B},\n")),
    (GR, "an unknown member in an unused group after others", *add(G, "    q {A, B, C, Q},\n")),
    (GR, "a missing separator between groups", *add(G, "    q {A} r {B},\n")),
    (GR, "a missing separator between members", *add(G, "    q {A B},\n")),
    (GR, "a group as member", *add(G, "    q {A, bc},\n")),
    (GR, "a link as member", *add(G, "    q {x},\n")),
    (GR, "a group without members list", *add(G, "    q,\n")),
    (GR, "a path as member", *add(G, "    q {A.x},\n")),
    (EN, "a variant with named fields", *add(V, "    D { d: NodeC },\n")),
    (EN, "a variant without field", *add(V, "    D,\n")),
    (EN, "a variant with two fields", *add(V, "    D(NodeC, NodeC),\n")),
    (EN, "a variant with an empty list of fields", *add(V, "    D(),\n")),
    (EN, "a variant holding something else than a node", *add(V, "    D(M),\n")),
    (EN, "two variants of one name", *add(V, "    C(NodeB),\n")),
    (EN, "something else than an enum first", "  pub enum M {\n    A(NodeM),\n  }\n", "  pub struct M {\n    a: NodeM,\n  }\n"),
    (EN, "a second enum", "    A(NodeM),\n  }\n", "    A(NodeM),\n  }\n  pub enum M2 {\n    A(NodeM),\n  }\n"),
    (EN, "a function", "    A(NodeM),\n  }\n", "    A(NodeM),\n  }\n  pub fn f() {}\n"),
    (EN, "an unknown kind of declaration", "    A(NodeM),\n  }\n", "    A(NodeM),\n  }\n  bidirectionl! {\n    A.z <-> A.z,\n  }\n"),
    (ST, "a data field in a group", "  pub n: usize,", "  #[group(g)]\n  pub n: usize,"),
    (ST, "a data field in a group of its own", "  pub m: String,", "  #[group(other)]\n  pub m: String,"),
    (ST, "a data field of a node without links in a group", "  pub k: u8,", "  #[group(g)]\n  pub k: u8,"),
    (ST, "an optional index in a group", "  pub n: usize,", "  #[group(g)]\n  pub n: Option<NodeIndex>,"),
    (ST, "a group that is a path", "  #[group(g, h)]", "  #[group(g, a::h)]"),
    (ST, "a group that is a literal", "  #[group(g, h)]", "  #[group(g, \"h\")]"),
    (ST, "an empty group that is a path", "#[phantom_group(gp)]", "#[phantom_group(gp, a::b)]"),
    (ST, "a group that is a pair of names", "  #[group(g, h)]", "  #[group(g h)]"),
    (ST, "a group with a value", "  #[group(g, h)]", "  #[group = \"g\"]"),
    (ST, "a group attribute without names", "  #[group(g, h)]", "  #[group]"),
    (ST, "a nested group", "  #[group(g, h)]", "  #[group(g(h))]"),
    (ST, "a group with a value among others", "  #[group(g, h)]", "  #[group(g, h = \"x\")]"),
    (ST, "a nested empty group", "#[phantom_group(gp)]", "#[phantom_group(gp(h))]"),
    (ST, "an empty group that is a literal", "#[phantom_group(gp)]", "#[phantom_group(gp, \"h\")]"),
    (ST, "a data field in a second group attribute", "  pub n: usize,", "  #[group(g)]\n  #[group(h)]\n  pub n: usize,"),
    (ST, "a group named like a link",  "  #[group(g, h)]", "  #[group(g, s)]"),
    (ST, "an empty group named like a link", "#[phantom_group(gp)]", "#[phantom_group(gp, s)]"),
    (ST, "a tuple struct as node", S, "#[derive(TypedNode)]\npub struct NodeC(u8);\n"),
    (ST, "a unit struct as node", S, "#[derive(TypedNode)]\npub struct NodeC;\n"),
    (ST, "an enum as node", S, "#[derive(TypedNode)]\npub enum NodeC { K }\n"),
    (US, "get_node! of an unknown variant", *add(END, "  let _ = get_node!(g, N::Q, i);\n")),
    (US, "get_node! read as another type", *add(END, "  let _: Option<&NodeA> = get_node!(g, N::B, i);\n")),
    (US, "get_node! of a variant of another enum", *add(END, "  let _ = get_node!(g, M::A, i);\n")),
    (US, "iter_nodes! of an unknown variant", *add(END, "  for _ in iter_nodes!(g, N::Q) {}\n")),
    (US, "iter_nodes! of a variant of another enum", *add(END, "  for _ in iter_nodes!(g, M::A) {}\n")),
    (US, "iter_nodes! read as another type", *add(END, "  let _: Vec<(NodeIndex, &NodeA)> = iter_nodes!(g, N::B).collect();\n")),
    (US, "alloc_node! of an unknown variant", "  g.commit(t);", "  let _ = alloc_node!(t, N::Q);\n  g.commit(t);"),
    (US, "alloc_node! of a variant of another enum", "  g.commit(t);", "  let _ = alloc_node!(t, M::A);\n  g.commit(t);"),
    (US, "mut_node! of an unknown variant", "  g.commit(t);", "  mut_node!(t, N::Q, i, n, {});\n  g.commit(t);"),
    (US, "mut_node! of a field of another variant", "  g.commit(t);", "  mut_node!(t, N::A, i, n, { n.m.clear(); });\n  g.commit(t);"),
    (US, "update_node! of an unknown variant", "  g.commit(t);", "  update_node!(t, N::Q, i, n, { n });\n  g.commit(t);"),
    (US, "update_node! to another node type", "  g.commit(t);", "  update_node!(t, N::A, i, n, { new_b() });\n  g.commit(t);"),
    (US, "discriminant! of an unknown variant", *add(END, "  let _ = discriminant!(N::Q);\n")),
    (US, "discriminant! without an enum", *add(END, "  let _ = discriminant!(B);\n")),
    (US, "get_node! from a graph of another enum", *add(END, "  let _ = get_node!(h, N::B, i);\n")),
    (US, "iter_nodes! from a graph of another enum", *add(END, "  for _ in iter_nodes!(h, N::B) {}\n")),
    (US, "iterating a type of another enum", *add(END, "  for _ in g.iter_type(discriminant!(M::A)) {}\n")),
    (US, "mut_node! in a transaction of another enum", "  h.commit(u);", "  mut_node!(u, N::B, i, n, {});\n  h.commit(u);"),
    (US, "mut_node! of a variant of another enum", "  g.commit(t);", "  mut_node!(t, M::A, i, n, {});\n  g.commit(t);"),
    (US, "mut_node! by closure of an unknown variant", "  g.commit(t);", "  mut_node!(t, N::Q, i, |n| {});\n  g.commit(t);"),
    (US, "mut_node! by moving closure of an unknown variant", "  g.commit(t);", "  mut_node!(t, N::Q, i, move |n| {});\n  g.commit(t);"),
    (US, "update_node! in a transaction of another enum", "  h.commit(u);", "  update_node!(u, N::B, i, n, { n });\n  h.commit(u);"),
    (US, "update_node! of a variant of another enum", "  g.commit(t);", "  update_node!(t, M::A, i, n, { n });\n  g.commit(t);"),
    (US, "update_node! by closure of an unknown variant", "  g.commit(t);", "  update_node!(t, N::Q, i, |n| { n });\n  g.commit(t);"),
    (US, "update_node! by closure to another node type", "  g.commit(t);", "  update_node!(t, N::A, i, |n| { new_b() });\n  g.commit(t);"),
    (US, "update_node! without a node as result", "  g.commit(t);", "  update_node!(t, N::B, i, n, { n.m; });\n  g.commit(t);"),
    (US, "alloc_node! in a transaction of another enum", "  h.commit(u);", "  let _ = alloc_node!(u, N::B);\n  h.commit(u);"),
    (US, "filling with a node of another enum", "  g.commit(t);", "  t.fill_back(j, M::A(NodeM { z: i }));\n  g.commit(t);"),
    (US, "filling with a bare node", "  g.commit(t);", "  t.fill_back(j, new_b());\n  g.commit(t);"),
    (US, "inserting a bare node", "  g.commit(t);", "  t.insert(new_b());\n  g.commit(t);"),
    (US, "checks of another enum", "  g.commit(t);", "  g.commit_checked(t, &check::GraphCheck::<M>::new());"),
    (US, "merging a transaction instead of a graph", "  g.commit(t);", "  let t2: Transaction<N> = Transaction::new(&Context::new());\n  t.merge(t2);\n  g.commit(t);"),
    (US, "inserting a node of another enum", "  g.commit(t);", "  t.insert(M::A(NodeM { z: i }));\n  g.commit(t);"),
    (US, "committing a transaction of another enum", "  g.commit(t);", "  g.commit(u);"),
    (US, "merging a graph of another enum", "  g.commit(t);", "  t.merge(h);"),
    (US, "committing a transaction twice", "  g.commit(t);", "  g.commit(t);\n  g.commit(t);"),
    (US, "using a graph after its context was switched", "  h.commit(u);", "  h.switch_context(&Context::new());\n  h.len();"),
    (US, "using a graph after it was merged", "  h.commit(u);", "  u.merge(h);\n  h.len();"),
]

# what must keep building: (property, rule, what, replaced text, replacement)
GOOD = [
    ("C01", "contexts-may-be-shared-by-threads", "a context is shared by threads", *add(END, "  shared::<Context>();\n")),
    ("C01", "contexts-may-be-shared-by-threads", "a context is moved to a thread", *add(END, "  let c = Context::new();\n  std::thread::spawn(move || { let t: Transaction<N> = Transaction::new(&c); });\n")),
]


def renamed(seed):
    """random declarations (see wit.py), and the same ones with one name nobody declared: (what, source)"""
    ss, es = wit.rand(seed)
    yield None, wit.source(ss, es)
    for e in es:
        for i, (a, b, c, d) in enumerate(e.bidir):
            for j in range(4):
                x = [a, b, c, d]
                x[j] = "Zq" if j in (0, 2) else "zq"
                yield f"random {seed}: {e.name} {x[0]}.{x[1]} <-> {x[2]}.{x[3]}", wit.source(ss, [_with(f, e, bidir=e.bidir[:i] + [tuple(x)] + e.bidir[i + 1:]) for f in es])
        for i, (v, l, ts) in enumerate(e.ltypes):
            bad = [("Zq", l, ts), (v, "zq", ts)] + [(v, l, ts[:j] + ["Zq"] + ts[j + 1:]) for j in range(len(ts))]
            for x in bad:
                yield f"random {seed}: {e.name} {x[0]}.{x[1]}: {x[2]}", wit.source(ss, [_with(f, e, ltypes=e.ltypes[:i] + [x] + e.ltypes[i + 1:]) for f in es])
        for i, (g, ms) in enumerate(e.groups):
            for j in range(len(ms)):
                x = (g, ms[:j] + ["Zq"] + ms[j + 1:])
                yield f"random {seed}: {e.name} {x[0]} {x[1]}", wit.source(ss, [_with(f, e, groups=e.groups[:i] + [x] + e.groups[i + 1:]) for f in es])


def _with(f, e, **kw):
    """e with the declarations replaced, if f is e"""
    if f is not e:
        return f
    o = dict(groups=e.groups, bidir=e.bidir, ltypes=e.ltypes)
    o.update(kw)
    return wit.Enum(e.name, e.vs, **o)


def compile_all(ctx, more=()):
    """name -> (accepted, messages) for the base program and every variation of it"""
    key = "refused" + "".join(f"-{k}" for k in more)
    if key in ctx.progs:
        return ctx.progs[key]
    ctx.dump("default")
    deb = os.path.join(build.CACHE, "target-default", "debug", "build")
    lib = sorted(glob.glob(os.path.join(deb, "ttgraph", "*", "out", "libttgraph-*.rmeta")), key=os.path.getmtime)
    dirs = glob.glob(os.path.join(deb, "*", "*", "out"))
    ext = []
    for n in ("ordermap", "indexmap"):
        ls = sorted(glob.glob(os.path.join(deb, n, "*", "out", f"lib{n}-*.rmeta")), key=os.path.getmtime)
        ext += [f"{n}={ls[-1]}"] if ls else []
    if not lib:     # the older layout of the build folder
        old = os.path.join(build.CACHE, "target-default", "debug", "deps")
        lib = sorted(glob.glob(os.path.join(old, "libttgraph-*.rmeta")), key=os.path.getmtime)
        dirs = [old]
    tmp = os.path.join(build.CACHE, "refused")
    os.makedirs(tmp, exist_ok=True)
    jobs = {}
    if more:
        for k in more:
            for w, src in renamed(k):
                jobs[(k, w)] = src
    else:
        jobs[("base",)] = BASE
        for r, w, o, n in BAD:
            assert o in BASE, o
            jobs[(r, w)] = BASE.replace(o, n, 1)
        for _, r, w, o, n in GOOD:
            jobs[(r, w)] = BASE.replace(o, n, 1)

    def one(job):
        i, (k, src) = job
        p = os.path.join(tmp, f"w{'r' if more else ''}{i}.rs")
        with open(p, "w") as f:
            f.write(src)
        i = ("r" if more else "") + str(i)
        cmd = ["rustc", "+nightly", "--cap-lints=allow", "--edition=2021", "--crate-type=lib", "--crate-name", f"w{i}", "--emit=metadata", "--error-format=short",
               "-o", os.path.join(tmp, f"libw{i}.rmeta"), "--extern", "ttgraph=" + lib[-1], p]
        for x in ext:
            cmd += ["--extern", x]
        for d in dirs:
            cmd += ["-L", "dependency=" + d]
        rc, out = build.run(cmd, tmp, timeout=120)
        return k, rc, out, p
    res = {}
    if lib:
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for k, rc, out, p in ex.map(one, enumerate(jobs.items())):
                res[k] = (rc, out, p)
    ctx.progs[key] = res
    return res


def good(ctx, rep, pid):
    res = compile_all(ctx)
    base = res.get(("base",))
    for q, r, w, o, n in GOOD:
        if q == pid:
            if not base or base[0] != 0:
                rep.und(r, w, "the base program does not build")
            else:
                rc, out, p = res[(r, w)]
                rep.check(rc == 0, r, w, f"a program in which {w} does not build: {out[-600:]}")


def c26(ctx, rep):
    res = compile_all(ctx)
    base = res.get(("base",))
    rule = "well-formed-declarations-build"
    rep.notes.append(f"{len(res)} programs given to the compiler, each differing from the accepted one in one place")
    if not base or base[0] not in (0, 1) or base[0] and re.search(r"extern location for|E046[0-3]|E0514|E0519|os error|couldn't create", base[1]):
        rep.und(rule, "witness", (base[1] if base else "no library to build against")[-600:])
        return
    if not rep.check(base[0] == 0, rule, "witness", f"refused: {base[2]}: {base[1][-600:]}"):
        return
    for r, w, o, n in BAD:
        verdict(rep, r, w, res[(r, w)], n.replace(o, '').strip() or n.strip())
    if ctx.tier == "thorough":
        seeds = tuple(range(ctx.seed * 100, ctx.seed * 100 + 12))
        res = compile_all(ctx, seeds)
        for (k, w), x in res.items():
            if w is not None and res[(k, None)][0] == 0:
                verdict(rep, "random-names-exist", w, x, w)
            elif w is None:
                rep.check(x[0] == 0, rule, f"random {k}", f"refused: {x[2]}: {x[1][-600:]}")


def verdict(rep, r, w, x, what):
    rc, out, p = x
    if rc == 0:
        rep.bad(r, w, f"accepted without an error: {what}  (whole program: {p})")
    elif "error" not in out or "internal compiler error" in out:
        rep.und(r, w, out[-600:])
    else:
        rep.ok(r, w)

"""Witness declarations: a model of node types and node enums, the Rust source that declares them with
the macros of /repo, and what the declarations mean.  The generated code of the macros is read in the
compiled witness; the meaning computed here from the declarations alone is the oracle."""
import itertools
import random


def pascal(s):
    return "".join(p[:1].upper() + p[1:] for p in s.split("_") if p)


class Field:
    def __init__(self, name, kind, ty, groups=()):
        self.name, self.kind, self.ty, self.groups = name, kind, ty, list(groups)

    @property
    def camel(self):
        return pascal(self.name)


class Struct:
    def __init__(self, name, fields, phantom=()):
        self.name, self.fields, self.phantom = name, fields, list(phantom)

    @property
    def links(self):
        return [f for f in self.fields if f.kind != "data"]

    @property
    def data(self):
        return [f for f in self.fields if f.kind == "data"]

    def index(self, name):
        return [f.name for f in self.fields].index(name)

    def groups(self):
        """group name -> list of member links"""
        g = {}
        for f in self.links:
            for x in f.groups:
                g.setdefault(x, []).append(f)
        for x in self.phantom:
            g.setdefault(x, [])
        return g

    def log(self, name):
        """links meant by a link or group name; None if there is no such name"""
        for f in self.links:
            if f.name == name:
                return [f]
        return self.groups().get(name)

    def rust(self):
        out = ["#[derive(TypedNode)]"]
        for p in self.phantom:
            out.append(f"#[phantom_group({p})]")
        out.append(f"pub struct {self.name} {{")
        for f in self.fields:
            # alternate between one attribute for all groups and one attribute each
            if len(f.groups) == 3:
                out.append(f"  #[group({f.groups[0]}, {f.groups[1]})]")
                out.append(f"  #[group({f.groups[2]})]")
            elif f.groups:
                out.append(f"  #[group({', '.join(f.groups)})]")
            out.append(f"  pub {f.name}: {f.ty},")
        out.append("}")
        return "\n".join(out)


class Enum:
    def __init__(self, name, vs, groups=(), bidir=(), ltypes=()):
        self.name, self.vs = name, list(vs)          # [(variant, Struct)]
        self.groups = list(groups)                    # [(name, [variants])]
        self.bidir = list(bidir)                      # [(v1, l1, v2, l2)]
        self.ltypes = list(ltypes)                    # [(v, l, [targets])]

    def struct(self, v):
        return dict(self.vs)[v]

    def members(self, v):
        d = dict(self.groups)
        return d[v] if v in d else [v]

    def rust(self):
        out = ["node_enum! {", f"  pub enum {self.name} {{"]
        out += [f"    {v}({s.name})," for v, s in self.vs]
        out.append("  }")
        if self.bidir:
            out.append("  bidirectional! {")
            out += [f"    {a}.{b} <-> {c}.{d}," for a, b, c, d in self.bidir]
            out.append("  }")
        if self.groups:
            out.append("  group! {")
            out += [f"    {g}{{{', '.join(m)}}}," for g, m in self.groups]
            out.append("  }")
        if self.ltypes:
            out.append("  link_type! {")
            for v, l, ts in self.ltypes:
                t = ts[0] if len(ts) == 1 else "{" + ", ".join(ts) + "}"
                out.append(f"    {v}.{l}: {t},")
            out.append("  }")
        out.append("}")
        return "\n".join(out)

    # ---- meaning
    def opposites(self):
        """set of ((variant, link), (variant, link)), both directions"""
        out = set()
        for v1, l1, v2, l2 in self.bidir:
            for a in self.members(v1):
                for b in self.members(v2):
                    for x in self.struct(a).log(l1) or []:
                        for y in self.struct(b).log(l2) or []:
                            out.add(((a, x.name), (b, y.name)))
                            out.add(((b, y.name), (a, x.name)))
        return out

    def log_opposites(self):
        """(variant, link or group name) -> set of (variant, link)"""
        out = {}
        for v1, l1, v2, l2 in self.bidir:
            for a in self.members(v1):
                for b in self.members(v2):
                    for (p, q, r, s) in ((a, l1, b, l2), (b, l2, a, l1)):
                        d = out.setdefault((p, q), set())
                        d |= {(r, y.name) for y in self.struct(r).log(s) or []}
        return out

    def allowed(self):
        """(variant, link or group name) -> allowed variants"""
        out = {}
        for v, l, ts in self.ltypes:
            for a in self.members(v):
                out.setdefault((a, l), set()).update(x for t in ts for x in self.members(t))
        return out


D = "NodeIndex"
SETS = ["HashSet<{}>", "BTreeSet<{}>", "ordermap::OrderSet<{}>", "indexmap::IndexSet<{}>"]

SPELL_SET = [
    "::std::collections::HashSet<{}>", "std::collections::HashSet<{}>", "collections::HashSet<{}>", "HashSet<{}>",
    "::std::collections::BTreeSet<{}>", "std::collections::BTreeSet<{}>", "collections::BTreeSet<{}>", "BTreeSet<{}>",
    "::ordermap::set::OrderSet<{}>", "::ordermap::OrderSet<{}>", "ordermap::set::OrderSet<{}>", "ordermap::OrderSet<{}>",
    "OrderSet<{}>",
    "::indexmap::set::IndexSet<{}>", "::indexmap::IndexSet<{}>", "indexmap::set::IndexSet<{}>", "indexmap::IndexSet<{}>",
    "IndexSet<{}>", "HashSet::<{}>",
]
SPELL_VEC = ["std::vec::Vec<{}>", "vec::Vec<{}>", "Vec<{}>", "Vec::<{}>", "std::vec::Vec::<{}>"]


def fixed():
    def d(n, *g, ty=D):
        return Field(n, "direct", ty, g)

    def s(n, k, *g):
        return Field(n, "set", SETS[k].format(D), g)

    def v(n, *g):
        return Field(n, "vec", "Vec<NodeIndex>", g)

    def x(n, ty="usize"):
        return Field(n, "data", ty)
    A = Struct("NodeA", [
        x("num"), d("one", "g_one"), d("two", ty="ttgraph::NodeIndex"), s("h_set", 0, "g_one", "g_two"), x("text", "String"),
        s("b_set", 1), s("o_set", 2, "g_two"), s("i_set", 3, "g_one", "g_two", "g_three"), v("many", "g_one", "g_three"), v("more"),
        x("pair", "(usize, u8)"), x("flag", "bool"), x("other", "usize"), x("list", "Vec<usize>"), x("arr", "[u8; 4]"),
    ])
    B = Struct("NodeB", [d("back"), d("up", "g_two"), s("peers", 1, "g_one"), x("val", "u32")], ["g_three", "g_none"])
    C = Struct("NodeC", [x("label", "String")])
    Dn = Struct("NodeD", [d("only", "g_one")])
    E = Struct("NodeE", [s("ins", 2), s("outs", 3), v("row"), d("x", "lr", "lr_two"), d("y", "lr", "lr_two"), x("weight", "f64")])
    F = Struct("NodeF", [d("p"), d("q", "both"), s("r", 0, "both")])
    Z = Struct("NodeZ", [])
    sp = []
    for i, t in enumerate(SPELL_SET):
        sp.append(Field(f"s_{i}a", "set", t.format("NodeIndex")))
        sp.append(Field(f"s_{i}b", "set", t.format("ttgraph::NodeIndex")))
    for i, t in enumerate(SPELL_VEC):
        sp.append(Field(f"v_{i}a", "vec", t.format("NodeIndex")))
        sp.append(Field(f"v_{i}b", "vec", t.format("ttgraph::NodeIndex")))
    sp.append(Field("d_a", "direct", "NodeIndex"))
    sp.append(Field("d_b", "direct", "ttgraph::NodeIndex"))
    sp.append(Field("n_a", "data", "Option<NodeIndex>"))
    sp.append(Field("n_b", "data", "Vec<usize>"))
    S = Struct("NodeS", sp)
    N = Enum("N", [("A", A), ("B", B), ("C", C), ("Dd", Dn), ("E", E), ("F", F), ("B2", B)],
             groups=[("ab", ["A", "B"]), ("solo", ["C"]), ("all", ["A", "B", "C", "Dd", "E", "F", "B2"]), ("bs", ["B", "B2"]),
                     ("ef", ["E", "F"])],
             bidir=[("A", "one", "B", "back"), ("A", "h_set", "A", "b_set"), ("E", "ins", "E", "outs"),
                    ("bs", "peers", "Dd", "only"), ("F", "both", "E", "lr"), ("A", "g_three", "bs", "g_three"),
                    ("A", "two", "A", "two"), ("E", "x", "F", "p"), ("E", "lr_two", "F", "both")],
             ltypes=[("A", "one", ["B"]), ("A", "g_two", ["bs", "Dd"]), ("bs", "back", ["A"]), ("E", "ins", ["E"]),
                     ("E", "lr", ["ef", "C"]), ("F", "p", ["all"]), ("A", "one", ["C"]), ("B", "back", ["Dd"]), ("Dd", "only", ["B", "B2", "F"]), ("A", "g_one", ["all"])])
    One = Enum("One", [("Node", A)], groups=[("g", ["Node"])], bidir=[("Node", "one", "Node", "h_set")], ltypes=[("Node", "one", ["Node"])])
    Two = Enum("Two", [("S", S), ("Z", Z), ("C", C)], groups=[("zc", ["Z", "C"])], ltypes=[("S", "d_a", ["zc"])])
    P = Struct("NodeP", [s("s_one", 1, "g_all"), s("s_two", 0, "g_all"), s("s_three", 2, "g_all"), d("d_one", "g_all"), d("d_two", "g_all"), v("v_one", "g_all"),
                         x("tag", "u8")])
    Q = Struct("NodeQ", [s("t_one", 1, "g_t"), s("t_two", 1, "g_t"), d("t_dir", "g_t"), d("t_four", "g_t"), x("mark", "i64")])
    ps, qs = ["Pa", "Pb", "Pc", "Pd"], ["Qa", "Qb", "Qc"]
    Big = Enum("Big", [(v_, P) for v_ in ps] + [(v_, Q) for v_ in qs],
               groups=[("ps", ps), ("qs", qs), ("mix", ["Pc", "Pd", "Qb", "Qc"])],
               bidir=[("ps", "s_one", "qs", "t_one"), ("ps", "s_two", "ps", "s_three"), ("qs", "t_two", "qs", "t_two"), ("Pa", "d_one", "Pb", "d_two"),
                      ("Pd", "d_one", "Qa", "t_dir"), ("Pa", "s_one", "Qc", "t_four"), ("qs", "t_one", "qs", "t_one"), ("Pc", "v_one", "Qb", "t_four")],
               ltypes=[("ps", "s_one", ["qs"]), ("ps", "s_two", ["ps"]), ("ps", "s_three", ["mix", "Pa", "Pb"]), ("ps", "d_one", ["Pa", "Pb", "Qa", "Qc"]),
                       ("Pa", "d_two", ["Pb"]), ("Pc", "d_two", ["mix"]), ("ps", "v_one", ["qs", "ps"]), ("qs", "t_one", ["ps", "Qa", "Qb"]), ("qs", "t_two", ["qs"]),
                       ("mix_q", "t_dir", ["mix"]), ("qs", "g_t", ["ps", "qs"])])
    Big.groups.append(("mix_q", ["Qb", "Qc"]))
    return [A, B, C, Dn, E, F, Z, S, P, Q], [N, One, Two, Big]


def rand(seed):
    """a random set of declarations"""
    r = random.Random(seed)
    words = ["alpha", "beta_x", "gam_ma", "delta", "eps", "zeta", "eta_two", "theta", "iota", "kap_pa", "lam", "mu_nu"]
    gw = ["ga", "gb_c", "gd"]
    ss = []
    for i in range(r.randint(3, 6)):
        fs = []
        for w in r.sample(words, r.randint(0, 6)):
            k = r.choice(["direct", "direct", "set", "set", "vec", "data"])
            gs = r.sample(gw, r.choice([0, 0, 1, 1, 2, 3])) if k != "data" else []
            if k == "direct":
                t = r.choice(["NodeIndex", "ttgraph::NodeIndex"])
            elif k == "set":
                t = r.choice(SPELL_SET).format(r.choice(["NodeIndex", "ttgraph::NodeIndex"]))
            elif k == "vec":
                t = r.choice(SPELL_VEC).format(r.choice(["NodeIndex", "ttgraph::NodeIndex"]))
            else:
                t = r.choice(["usize", "String", "(u8, u8)", "Vec<usize>", "Option<NodeIndex>", "bool", "[u16; 3]"])
            fs.append(Field(w, k, t, gs))
        used = {g for f in fs for g in f.groups}
        ph = [g for g in gw if g not in used and r.random() < 0.4]
        ss.append(Struct(f"R{i}", fs, ph))
    es = []
    for j in range(2):
        vs = []
        n = r.randint(1, 6)
        for i in range(n):
            vs.append((f"V{chr(97 + i)}", r.choice(ss)))
        gs = []
        for k in range(r.randint(0, 3)):
            gs.append((f"grp{k}", r.sample([v for v, _ in vs], r.randint(1, n))))
        e = Enum(f"M{j}", vs, gs)
        names = [v for v, _ in vs] + [g for g, _ in gs]

        def logs(v):
            out = None
            for m in e.members(v):
                st = e.struct(m)
                ns = {f.name for f in st.links} | set(st.groups())
                out = ns if out is None else out & ns
            return sorted(out or [])
        for _ in range(r.randint(0, 5)):
            a, b = r.choice(names), r.choice(names)
            la, lb = logs(a), logs(b)
            if la and lb:
                e.bidir.append((a, r.choice(la), b, r.choice(lb)))
        for _ in range(r.randint(0, 5)):
            a = r.choice(names)
            la = logs(a)
            if la:
                l = r.choice(la)
                e.ltypes.append((a, l, r.sample(names, r.randint(1, min(3, len(names))))))
        es.append(e)
    return ss, es


MACROS = '''
pub fn m_get(g: &Graph<N>, i: NodeIndex) -> Option<&NodeB> { get_node!(g, N::B, i) }
pub fn m_get_a(g: &Graph<N>, i: NodeIndex) -> Option<&NodeA> { get_node!(g, N::A, i) }
pub fn m_iter(g: &Graph<N>) -> Vec<(NodeIndex, &NodeA)> { iter_nodes!(g, N::A).collect() }
pub fn m_alloc(t: &mut Transaction<N>) -> NodeIndex { alloc_node!(t, N::E) }
pub fn m_disc() -> <N as NodeEnum>::Discriminant { discriminant!(N::F) }
pub fn m_disc_path() -> <N as NodeEnum>::Discriminant { discriminant!(crate::N::B2) }
pub fn m_disc_self() -> <N as NodeEnum>::Discriminant { discriminant!(self::N::A) }
pub fn blk(n: &mut NodeB) { n.val = 7; }
pub fn upd(n: NodeB) -> NodeB { NodeB { val: 9, ..n } }
pub fn m_mut0(t: &mut Transaction<N>, i: NodeIndex) { mut_node!(t, N::B, i, n, { blk(n) }) }
pub fn m_mut1(t: &mut Transaction<N>, i: NodeIndex) { mut_node!(t, N::B, i, |n| { blk(n) }) }
pub fn m_mut2(t: &mut Transaction<N>, i: NodeIndex) { mut_node!(t, N::B, i, move |n| { blk(n) }) }
pub fn m_upd0(t: &mut Transaction<N>, i: NodeIndex) { update_node!(t, N::B, i, n, { upd(n) }) }
pub fn m_upd1(t: &mut Transaction<N>, i: NodeIndex) { update_node!(t, N::B, i, |n| { upd(n) }) }
pub fn m_upd2(t: &mut Transaction<N>, i: NodeIndex) { update_node!(t, N::B, i, move |n| { upd(n) }) }
'''


def source(ss, es, macros=False):
    out = ["#![allow(warnings)]", "use ttgraph::*;", "use std::collections;", "use std::vec;", "use std::collections::*;",
           "use ::ordermap;", "use ::ordermap::OrderSet;", "use indexmap::IndexSet;"]
    out += [s.rust() for s in ss] + [e.rust() for e in es]
    if macros:
        out.append(MACROS)
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    print(source(*fixed(), macros=True))

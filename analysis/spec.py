"""Shared machinery of the property rules: analysed runs, guard logic, roles, obligations."""
import os
import time
from term import mk, T, BDD, show, subterms, rewrite
import term
import mir
import engine
from engine import strip, State
import prims
import build


class Obl:
    """one obligation: something the rule demanded of the code"""
    __slots__ = ("rule", "where", "status", "msg")

    def __init__(self, rule, where, status, msg):
        self.rule, self.where, self.status, self.msg = rule, where, status, msg


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obls = []
        self.functions = set()
        self.calls = 0
        self.events = 0
        self.notes = []
        self.seen = set()

    def ok(self, rule, where=""):
        self.obls.append(Obl(rule, where, "ok", ""))

    def bad(self, rule, where, msg):
        k = (rule, where, msg)
        if k in self.seen:
            return
        self.seen.add(k)
        self.obls.append(Obl(rule, where, "violation", msg))

    def und(self, rule, where, msg):
        self.obls.append(Obl(rule, where, "undecided", msg))

    def check(self, cond, rule, where, msg):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, msg)
        return cond

    def used(self, run):
        self.functions |= {run.P.bodies[k].name for k in run.I.fn_seen if k in run.P.bodies and not run.P.bodies[k].foreign}
        if id(run) not in self.seen:
            self.seen.add(id(run))
            self.calls += run.I.calls_seen
            self.events += len(run.log)

    def violations(self):
        return [o for o in self.obls if o.status == "violation"]


class Run:
    """one analysed entry function"""

    def __init__(self, ctx, P, body, names, prm=None, self_ty=None, values=None, facts=None, assume=1):
        self.ctx, self.P, self.body, self.names = ctx, P, body, names
        self.assume = assume
        self.I = I = engine.Interp(P, prims.graph_prims() if prm is None else prm)
        I.facts = facts
        I.printing = body.item.get("m") == "fmt"
        st = State(1, assume, {}, ())
        args = []
        self.args = []
        for i, n in enumerate(names):
            ty = P.ty(body.crate, body.locals[i + 1])
            if values and n in values:
                v = values[n]
                if ty["k"] == "ref":
                    root = mk("P", n)
                    st.store[root] = v
                    v = mk("ref", I.place(root))
                args.append(v)
            elif ty["k"] == "ref":
                args.append(mk("ref", I.place(mk("P", n))))
            else:
                args.append(mk("param", n))
        self.error = None
        try:
            self.st, self.ret = I.run_function(body, args, st, self_ty)
        except (engine.Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("TTG_DEBUG"):
                raise
            self.error = repr(e)
            self.st, self.ret = None, None
        self.log = [e for e in I.log if BDD.AND(e.pc, e.assume)]

    @property
    def where(self):
        return self.body.item["p"] + " (" + rel(self.body.item["s"]) + ")"

    def retval(self):
        return self.I.canon(self.st, self.ret) if self.st is not None else None


def rel(s):
    s = s or ""
    return s.replace("/repo/", "")


def loc(e):
    s = rel(e.span or "")
    if s.startswith("/root/.rustup"):
        s = "core::" + s.split("library/core/src/")[-1]
    fn = e.stack[-1] if e.stack else ""
    outer = [x for x in e.stack if not x.startswith("core::")]
    fn = outer[-1] if outer else fn
    return f"{s} in {fn}"


class Ctx:
    """lazily analysed programs"""

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.progs = {}
        self.runs = {}
        self.build_s = 0

    def prog(self, tag="default", crates=("ttgraph",)):
        k = (tag, crates)
        if k not in self.progs:
            d = self.dump(tag)
            if "witness" in crates and os.path.exists(os.path.join(d, "error")):
                raise build.BuildError("code using the macros does not compile", open(os.path.join(d, "error")).read())
            self.progs[k] = mir.Program([os.path.join(d, c + ".json") for c in crates])
        return self.progs[k]

    def prog_of(self, name, source):
        """the program of other witness declarations"""
        k = ("named", name)
        if k not in self.progs:
            t = time.time()
            d = build.dump("default", name=name, source=source)
            self.build_s += time.time() - t
            if os.path.exists(os.path.join(d, "error")):
                raise build.BuildError("code using the macros does not compile", open(os.path.join(d, "error")).read())
            self.progs[k] = mir.Program([os.path.join(d, c + ".json") for c in ("ttgraph", "witness")])
        return self.progs[k]

    def dump(self, tag):
        k = ("dump", tag)
        if k not in self.progs:
            t = time.time()
            self.progs[k] = build.dump(tag, features=(tag != "nodebug"), assertions=(tag == "dev"))
            self.build_s += time.time() - t
        v = self.progs[k]
        if isinstance(v, Exception):
            raise v
        return v

    def run(self, selfn, m, names, trait=None, tag="default", facts=None, assume=1, case=None):
        """case: name of the case that facts and assume describe"""
        k = (selfn, m, trait, tag, tuple(names), case)
        if k not in self.runs:
            P = self.prog(tag)
            bs = P.method(selfn, m, trait)
            if not bs:
                self.runs[k] = None
            else:
                r = Run(self, P, bs[0], names, facts=facts, assume=assume)
                self.runs[k] = r
        return self.runs[k]

    def run_fn(self, suffix, names, tag="default"):
        k = ("fn", suffix, tag)
        if k not in self.runs:
            P = self.prog(tag)
            bs = P.find(suffix, "ttgraph")
            self.runs[k] = Run(self, P, bs[0], names) if bs else None
        return self.runs[k]


# ---------------------------------------------------------------------- guards
_norm_memo = {}


def normg(f):
    """guard with all version information forgotten"""
    r = _norm_memo.get(f)
    if r is None:
        r = BDD.mapatoms(f, lambda t: batom(strip(t)))
        _norm_memo[f] = r
    return r


def batom(t):
    if t.op == "bool":
        return t.a[0]
    if t.op == "c":
        return 1 if t.a[0] else 0
    if t.op == "eq":
        a, b = t.a
        if a is b:
            return 1
        if a.op == "c" and b.op == "c":
            return 1 if a.a[0] == b.a[0] else 0
        if b.id < a.id:
            return BDD.atom(mk("eq", b, a))
    return BDD.atom(t)


def loop_axioms(f, loops):
    """inside a loop over S, S is not empty and holds the current key"""
    srcs = {strip(l.a[0]) for l in loops}

    def at(t):
        if t.op == "empty" and t.a[0] in srcs:
            return 0
        if t.op == "has" and t.a[1].op in ("key", "elem") and strip(t.a[1].a[0].a[0]) is t.a[0]:
            return 1
        return batom(t)
    return BDD.mapatoms(f, at)


def consistent(cube):
    """cube: list of (atom, bool); simple congruence reasoning on eq atoms. False if contradictory"""
    par = {}

    def find(x):
        while par.get(x, x) is not x:
            x = par[x]
        return x
    def nf(t):
        if not isinstance(t, T):
            return t
        return find(t)

    def deep(t):
        return find(rewrite(t, nf)(t))
    eqs = [t for t, v in cube if t.op == "eq" and v]
    for _ in range(4):
        ch = False
        for t in eqs:
            a, b = deep(t.a[0]), deep(t.a[1])
            if a is not b:
                if a.op == "c":
                    a, b = b, a
                if a.op == "c" and b.op == "c":
                    if a.a[0] != b.a[0]:
                        return False
                    continue
                if a in list(subterms(b)):
                    if b in list(subterms(a)):
                        continue
                    a, b = b, a
                par[a] = b
                ch = True
        if not ch:
            break
    seen = {}
    for t, v in cube:
        if t.op == "eq":
            a, b = deep(t.a[0]), deep(t.a[1])
            if a is b:
                if not v:
                    return False
            elif v and a.op == "c" and b.op == "c" and a.a[0] != b.a[0]:
                return False
            continue
        k = rewrite(t, nf)(t)
        if k in seen and seen[k] != v:
            return False
        seen[k] = v
    return True


def implies(f, g, limit=200):
    """f => g up to simple congruence; returns (bool, counterexample cube)"""
    d = BDD.AND(f, BDD.NOT(g))
    if d == 0:
        return True, None
    n = 0
    for cube in BDD.icubes(d):
        cb = [(t, v) for t, v in cube]
        if consistent(cb):
            return False, cb
        n += 1
        if n > limit:
            return None, cb
    return True, None


def show_cube(cb):
    return " & ".join(("" if v else "!") + show(t) for t, v in (cb or [])) or "always"


OPAQUE = ("loopval", "havoc")


UNCLEAR_ITER = ("zip", "scan", "map_while", "windows", "chunks", "array_chunks", "intersperse", "cycle")


def opaque_terms(*ts):
    """does any of the terms contain something the engine could not interpret"""
    for t in ts:
        if isinstance(t, int):
            for a in BDD.support(t):
                if opaque_terms(a):
                    return True
            continue
        if t is None:
            continue
        for s in subterms(t):
            if s.op == "prim" and isinstance(s.a[0], str) and (s.a[0].startswith("call:") or s.a[0] == "recur"):
                return True
            if s.op in ("loopval", "uninit", "rv", "aggother", "while"):
                return True
            if s.op == "itkey" and s.a[0] == "partial" and s.a[1] in UNCLEAR_ITER:
                return True
    return False


def sub(t, m):
    """replace subterms by the mapping"""
    return rewrite(t, lambda x: m.get(x, x))(t)


# ---------------------------------------------------------------------- roles
def class_of(P, crate, tid):
    import models
    return models.ty_class(P.ty(crate, tid))


def adt_named(P, last, crate="ttgraph"):
    for n, a in P.adts.items():
        if n.split("::")[-1] == last and a["crate"] == crate and "{impl" not in n:
            return a
    return None


def fields_deep(P, adt, base=()):
    """(path of field indices, field) of a struct, looking into local structs"""
    out = []
    if adt is None or adt["kind"] != "Struct":
        return out
    for i, f in enumerate(adt["vs"][0]["f"]):
        p = base + (i,)
        out.append((p, f))
        ty = P.ty(adt["crate"], f["t"])
        if ty["k"] == "adt" and ty["n"] in P.adts and len(base) < 2 and ty["n"] != adt["n"]:
            out += fields_deep(P, P.adts[ty["n"]], p)
    return out


def path_term(I, root, path):
    t = root
    for i in path:
        t = I.project(t, mk(".f", i))
    return t


def graph_roles(P):
    """field paths (nodes, back links, context id) of Graph, found by their types"""
    g = adt_named(P, "Graph")
    r = {}
    for p, f in fields_deep(P, g):
        ty = P.ty(g["crate"], f["t"])
        if ty["k"] == "param":
            r.setdefault("N", p)
        elif class_of(P, g["crate"], f["t"]) == "map" and "SourceEnum" in ty["s"]:
            r.setdefault("B", p)
        elif ty["k"] == "adt" and ty["n"].split("::")[-1] == "Uuid":
            r.setdefault("C", p)
    return r


def origin(v):
    return v.a[0] if v.op == "coll" else v


def find_agg(v, last):
    if v is None:
        return None
    for s in subterms(v):
        if s.op == "agg" and isinstance(s.a[0], str) and s.a[0].split("::")[-1] == last:
            return s
    return None


def agg_path(I, v, path):
    for i in path:
        v = I.project(v, mk(".n") if v.op == "agg" and v.a[0] in I.newtypes else mk(".f", i))
    return v

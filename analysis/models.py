"""Models of the library operations the code uses: collections, iterators, options, closures, and
(in graph mode) of the store and node reflection traits, whose own correctness is a separate property.
"""
from term import mk, T, BDD, rewrite
import engine as E

MAPM = ("ordermap::map", "indexmap::map", "std::collections::hash::map", "alloc::collections::btree::map",
        "hashbrown::map")
SETM = ("ordermap::set", "indexmap::set", "std::collections::hash::set", "alloc::collections::btree::set",
        "hashbrown::set")
SEQM = ("alloc::vec", "core::slice", "alloc::slice", "core::array", "alloc::collections::vec_deque", "alloc::str",
        "core::str", "alloc::string", "alloc::collections::linked_list", "ordermap::map::slice", "ordermap::set::slice")


def mod_class(n):
    if "::entry" in n.split("::{impl")[0] and any(n.startswith(m) for m in MAPM):
        return "entry"
    for ms, c in ((MAPM, "map"), (SETM, "set"), (SEQM, "seq")):
        for m in ms:
            if n.startswith(m + "::"):
                return c
    return None


def ty_class(ty):
    if ty is None:
        return None
    if ty["k"] in ("slice", "array"):
        return "seq"
    if ty["k"] == "adt":
        n = ty["n"]
        last = n.split("::")[-1]
        if last in ("OrderMap", "IndexMap", "HashMap", "BTreeMap"):
            return "map"
        if last in ("OrderSet", "IndexSet", "HashSet", "BTreeSet"):
            return "set"
        if last in ("Vec", "VecDeque", "String"):
            return "seq"
    return None


STD_DERIVE = ("core::clone::Clone", "core::cmp::PartialEq", "core::cmp::Eq", "core::cmp::PartialOrd",
              "core::cmp::Ord", "core::hash::Hash", "core::fmt::Debug", "core::marker::Copy")

ITER = "core::iter::traits::iterator::Iterator"
SRC_WRAP = ("rest",)


class Models:
    def __init__(self, interp):
        self.I = interp
        self.P = interp.P

    # ------------------------------------------------------------------ helpers
    def val(self, st, a):
        return self.I.canon(st, a)

    def deref(self, st, a):
        """value behind one reference (or the value itself)"""
        if a.op == "ref":
            return self.I.load(st, a.a[0])
        if a.op == "choice":
            return self.I.choice([(g, self.deref(st, x)) for g, x in a.a[0]])
        return a

    def tmp(self, st, v):
        root = mk("L", self.I.nuid(), 0)
        st.store[root] = v
        return mk("ref", self.I.place(root))

    def dref(self, v):
        """reference to a value that is not changed through it"""
        if v.op == "ref":
            return v
        return mk("ref", self.I.place(mk("D", v)))

    def rootplace(self, st, recv):
        """places behind a reference, following references to references"""
        out = []
        for g, p in self.I.deref_places(st, recv):
            v = self.I.load(st, p)
            if v.op == "ref":
                out += [(BDD.AND(g, g2), p2) for g2, p2 in self.rootplace(st, v)]
            elif v.op == "choice" and any(x.op == "ref" for _, x in v.a[0]):
                for g3, x in v.a[0]:
                    if x.op == "ref":
                        out += [(BDD.AND(g, g3, g2), p2) for g2, p2 in self.rootplace(st, x)]
                    else:
                        out.append((BDD.AND(g, g3), p))
            else:
                out.append((g, p))
        k = BDD.AND(st.pc, st.assume)
        o2 = [(g, p) for g, p in out if BDD.AND(g, k)]
        return o2 or out

    def mutate(self, st, recv, cb):
        """cb(substate, place, old) -> (new value | None, result)"""
        I = self.I
        pls = self.rootplace(st, recv)
        if len(pls) == 1:
            p = pls[0][1]
            new, res = cb(st, p, I.load(st, p))
            if new is not None:
                I.store(st, p, new, log=False)
            return res
        outs = []
        for g, p in pls:
            sub = st.copy()
            sub.pc = BDD.AND(st.pc, g)
            if not sub.pc:
                continue
            old = I.load(st, p)
            new, res = cb(sub, p, old)
            if new is not None:
                I.store(st, p, I.joinval([(g, new), (BDD.NOT(g), old)], 1), log=False)
            outs.append((g, res))
        return I.choice(outs) if outs else E.BOT()

    def opt(self, cond, v):
        I = self.I
        if cond == 1:
            return E.some(v)
        if cond == 0:
            return E.none()
        return I.choice([(cond, E.some(v)), (BDD.NOT(cond), E.none())])

    def at(self, p, k):
        return self.I.place(p.a[0], p.a[1] + (mk(".at", k),))

    def opaque_iter_param(self, itv, itplace):
        return False

    def depth(self, v):
        o = v.a[0]
        return o.a[2] if o.op == "new" else 0

    def ctr(self, st, v, value):
        """contribution of value to the local collection v in state st"""
        I = self.I
        d = self.depth(v)
        loops = tuple(l for l, _ in st.loops[d:])
        cpc = I.coll_pc.get(v.a[0], 1)
        g = BDD.restrict(st.pc, BDD.AND(cpc, st.assume)) if cpc != st.pc else 1
        if BDD.AND(st.pc, BDD.NOT(cpc)) == 0:
            g = BDD.restrict(st.pc, cpc)
        return mk("ctr", loops, g, value)

    def add_contrib(self, st, v, value):
        if v.a[3] is None:
            return None
        k = self.ctr(st, v, value)
        if v.a[0].op == "new" and v.a[0].a[0] == "set":
            # a set holds a value once
            for i, o in enumerate(v.a[3]):
                if o.a[0] == k.a[0] and o.a[2] is k.a[2]:
                    if BDD.implies(k.a[1], o.a[1]):
                        return v.a[3]
                    return v.a[3][:i] + (mk("ctr", o.a[0], BDD.OR(o.a[1], k.a[1]), o.a[2]),) + v.a[3][i + 1:]
        return v.a[3] + (k,)

    def distinct(self, v):
        """contributions of a sorted list once neighbours that are equal are merged, None if not known"""
        if v.a[3] is None or v.a[0] not in self.I.unordered or any(o.a[0] for o in v.a[3]):
            return None
        gs = {}
        for o in v.a[3]:
            gs[o.a[2]] = BDD.OR(gs.get(o.a[2], 0), o.a[1])
        return tuple(mk("ctr", (), g, x) for x, g in gs.items())

    def fetch_update(self, st, m, args, span, fr):
        """read, compute and write as one atomic step; adding a constant is the same as fetch_add"""
        I = self.I
        if len(args) != 4:
            return None
        p = self.rootplace(st, args[0])[0][1]
        loops = tuple(l for l, _ in st.loops)
        q0 = mk("pos", I.nseq())
        old = mk("fetched", "fetch_update", q0, loops, I.path_of(st, p))
        n0 = len(I.log)
        st, new = I.call_value(st, args[3], [old], span)
        if st is None:
            return None, None
        if len(I.log) != n0:
            return None
        if m != "update":
            if new.op != "agg" or new.a[1] != "Some":
                return None
            new = I.project(new, mk(".v", "Some", 0))
        new = self.val(st, new)
        if new.op != "sum" or len(new.a) != 2 or old not in new.a or not any(x.op == "c" for x in new.a):
            return None
        k = [x for x in new.a if x is not old][0]
        q = I.event(st, "atomic", I.path_of(st, p), (k,), span, extra="fetch_add")
        got = mk("fetched", "fetch_add", q, loops, I.path_of(st, p), k)
        return st, got if m == "update" else E.agg(E.RESULT, "Ok", got)

    def new(self, st, kind, contribs=()):
        v = self.I.new_coll(st, kind, contribs)
        self.I.coll_pc[v.a[0]] = st.pc
        return v

    def from_array(self, st, v):
        if v.op == "agg" and v.a[0] == "[]":
            return self.new(st, "seq", tuple(mk("ctr", (), 1, x) for x in v.a[2]))
        return v

    # ------------------------------------------------------------------ dispatch
    def selfname(self, fr, fn):
        """name of the Self type of a trait call, resolving Self and associated types"""
        if "self" not in fn:
            return None, None
        ty = self.P.ty(fr.crate, fn["self"])
        return self.tyname(fr, ty), ty

    def tyname(self, fr, ty):
        if ty["k"] == "ref":
            return self.tyname(fr, self.P.ty(fr.crate, ty["t"]))
        if ty["k"] == "param" and ty["s"] == "Self" and fr.self_ty:
            return fr.self_ty
        if ty["k"] == "alias" and fr.self_ty:
            s = ty["s"]
            if s.startswith("<Self as "):
                name = s.rsplit("::", 1)[-1]
                for (tr, n), m in self.P.assoc.items():
                    if n == fr.self_ty and name in m:
                        t2 = m[name]
                        return t2
        return ty.get("n") or ty["s"]

    def dispatch(self, fr, fn, args, st, t):
        I = self.I
        span = t.get("s")
        if "ctor" in fn:
            ct = fn["ctor"]
            if ct["n"] in ("alloc::boxed::Box",):
                return st, args[0]
            return st, I.eta(E.agg(ct["n"], ct["vn"], *args))
        m = fn.get("m") or fn["n"].split("::")[-1]
        tr = fn.get("trait")
        r = fn.get("r")
        # trait primitives of the current mode
        if tr:
            trl = tr.split("::")[-1]
            h = I.prims.get((trl, m))
            if h is not None:
                return h(self, fr, fn, args, st, span)
        # a local function
        key = (r or {}).get("d") or (fn["d"] if not tr else None)
        body = self.P.bodies.get(key) if key else None
        if tr and tr.split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            body = None     # the arguments come as a tuple
        sname, sty = self.selfname(fr, fn)
        if tr and body is None and sname:
            # Self or an associated type of a known implementation
            im = self.P.impls.get((tr, sname))
            if im is not None:
                body = self.P.bodies.get(im.get(m, ""))
                if body is None:
                    k2 = self.P.trait_defaults.get((tr, m))
                    body = self.P.bodies.get(k2) if k2 else None
        if body is not None and not body.foreign:
            ntr = body.item.get("impl_trait")
            if body.item.get("auto") and ntr in STD_DERIVE:
                body = None
            elif not self.keep(body):
                nself = sname if tr else None
                if not tr and "impl_self" in body.item:
                    nself = self.P.ty(body.crate, body.item["impl_self"]).get("n")
                if tr and nself is None:
                    nself = fr.self_ty
                if I.stack.count(body.name) >= 1 and body.key in [k for k in I.keystack]:
                    return self.recursion(body, args, st, span)
                hook = I.hooks.get(body.key)
                if hook is not None:
                    return hook(self, fr, fn, args, st, span)
                return I.run_function(body, args, st, nself)
        if tr:
            x = self.trait_call(fr, fn, tr, m, args, st, span, sname, sty, t)
            if x is not None:
                return x
        if m == "unwrap_or_default" and fn["n"].startswith("core::option") and fn.get("a"):
            ty = self.P.ty(fr.crate, fn["a"][0])
            g = I.is_variant(args[0], I.variants(E.OPTION), "Some")
            if ty["k"] != "param":
                return st, I.joinval([(g, I.project(args[0], mk(".v", "Some", 0))), (BDD.NOT(g), self.default(st, ty, fr))], 1)
        if body is not None and body.foreign:
            return I.run_function(body, args, st, None)
        x = self.lib_call(fr, fn, m, args, st, span, sty, t)
        if x is not None:
            return x
        if t.get("t", 0) is None:
            I.event(st, "panic", None, tuple(self.val(st, a) for a in args), span, extra=fn["n"])
            return None, None
        return self.unknown(fr, fn, m, args, st, span, t)

    def keep(self, body):
        return False

    def recursion(self, body, args, st, span):
        I = self.I
        vals = tuple(self.val(st, a) for a in args)
        I.event(st, "recur", None, vals, span, extra=body.name)
        self.havoc(st, args, mk("recur", body.name))
        return st, mk("prim", "recur", E.c(body.item.get("m") or body.name), *vals)

    def havoc(self, st, args, why):
        I = self.I
        for a in args:
            if a.op in ("ref", "choice") :
                for g, p in I.deref_places(st, a):
                    if p.a[0].op == "D" and p.a[0].a[0].op in ("c", "clos", "agg"):
                        continue
                    old = I.load(st, p)
                    I.store(st, p, mk("called", why, old), log=False)

    def unknown(self, fr, fn, m, args, st, span, t=None):
        I = self.I
        vals = tuple(self.val(st, a) for a in args)
        n = fn["n"]
        I.event(st, "call", None, vals, span, extra=n)
        if not I.dry:
            I.unknown.append((n, span, I.stack[-1] if I.stack else ""))
        why = mk("f", n)
        # only what is reachable by &mut may change
        for i, a in enumerate(args):
            if a.op in ("ref", "choice") and self.is_mut_arg(fr, t, i):
                for g, p in I.deref_places(st, a):
                    if p.a[0].op in ("P", "L"):
                        old = I.load(st, p)
                        if I.visible(p):
                            I.event(st, "havoc", I.path_of(st, p), (), span, extra=n)
                        I.store(st, p, mk("called", why, old, I.nuid()), log=False)
        return st, mk("prim", "call:" + n, *vals)

    def is_mut_arg(self, fr, t, i):
        at = (t or {}).get("at")
        if at is None or i >= len(at):
            return True
        ty = self.P.ty(fr.crate, at[i])
        return ty["k"] == "ref" and bool(ty.get("m"))

    # ------------------------------------------------------------------ traits
    def trait_call(self, fr, fn, tr, m, args, st, span, sname, sty, t):
        I = self.I
        trl = tr.split("::")[-1]
        if trl in ("Fn", "FnMut", "FnOnce"):
            as_ = self.untuple(st, args[1])
            muts = None
            at = (t or {}).get("at")
            if at and len(at) > 1:
                tt = self.P.ty(fr.crate, at[1])
                if tt["k"] == "tuple" and len(tt["a"]) == len(as_):
                    muts = [self.P.ty(fr.crate, x)["k"] != "ref" or bool(self.P.ty(fr.crate, x).get("m")) for x in tt["a"]]
            return I.call_value(st, args[0], as_, span, muts)
        if trl == "Iterator" or trl in ("DoubleEndedIterator", "ExactSizeIterator"):
            return self.iterator(fr, fn, m, args, st, span, t)
        if trl == "IntoIterator":
            return st, self.into_iter(st, args[0], sty, fr)
        if trl in ("FromIterator",) and m == "from_iter":
            return self.collect(st, self.into_iter(st, args[0], None, fr), sty, span, fr)
        if trl == "Extend":
            return self.extend(st, args[0], self.into_iter(st, args[1], None, fr), sty, span)
        if trl == "Clone" or trl == "ToOwned":
            return st, self.clone(st, self.deref1(st, args[0]), sty)
        if trl == "PartialEq" and m in ("eq", "ne"):
            im = self.P.impls.get((tr, sname or ""))
            if im is not None and "eq" in im:
                b = self.P.bodies.get(im["eq"])
                if b is not None and not b.item.get("auto"):
                    st2, v = I.run_function(b, [self.strip1(st, a) for a in args], st, sname)
                    if st2 is None:
                        return None, None
                    return st2, (v if m == "eq" else E.boolv(BDD.NOT(I.bdd(v))))
            a, b = self.val(st, args[0]), self.val(st, args[1])
            g = self.eq_vals(st, a, b, sty, fr)
            return st, E.boolv(g if m == "eq" else BDD.NOT(g))
        if trl in ("PartialOrd", "Ord"):
            a = [self.val(st, x) for x in args]
            if m in ("lt", "le", "gt", "ge"):
                return st, I.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], self.un(a[0]), self.un(a[1]))
            if m in ("max", "min") and len(a) == 2:
                return st, mk("prim", m, *sorted(a, key=lambda x: x.id))
            return st, mk("prim", m, *a)
        if trl == "Default":
            return st, self.default(st, sty, fr)
        if trl in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut"):
            a = args[0]
            v = self.deref(st, a)
            if v.op == "ref":
                return st, v
            return st, a
        if trl in ("Index", "IndexMut"):
            return self.index(st, args[0], args[1], span, sty)
        if trl in ("From", "Into") and m in ("from", "into"):
            tt = sty if trl == "From" else None
            cl = ty_class(sty) if sty else None
            if trl == "From" and cl in ("map", "set", "seq") and args[0].op == "agg":
                if cl == "seq":
                    return st, self.from_array(st, args[0])
                return self.collect(st, self.into_iter(st, args[0], None, fr), sty, span, fr)
            if sty is not None and sty["k"] == "adt" and self.P.impls.get((tr, sty["n"])):
                return None
            return st, args[0]
        if I.printing and trl in ("Debug", "Display") and m == "fmt" and len(args) == 2:
            b = self.P.impls.get((tr, sname or ""))
            b = self.P.bodies.get(b["fmt"]) if b and "fmt" in b else None
            if b is not None and not b.item.get("auto") and b.item.get("impl_self") is not None and sname and sname.split("::")[-1] == "Graph":
                return I.run_function(b, list(args), st, sname)
            w = self.wrote(st, args[1], span)
            I.event(st, "print", None, (mk("prim", "fmtarg", trl.lower(), self.val(st, args[0])),), span, extra=w)
            return st, w
        if trl == "Drop" or trl == "Hash" or trl == "Debug" or trl == "Display":
            return st, (E.UNIT() if trl in ("Drop", "Hash") else mk("prim", "fmt"))
        if trl == "ToString":
            return st, mk("prim", "to_string", self.val(st, args[0]))
        if trl in ("Not",):
            v = self.val(st, args[0])
            return st, E.boolv(BDD.NOT(I.bdd(v)))
        if trl in ("BitAnd", "BitOr", "BitXor", "Add", "Sub", "Mul"):
            return st, I.binop(trl, self.val(st, args[0]), self.val(st, args[1]))
        if trl in ("AddAssign", "SubAssign", "BitOrAssign", "BitAndAssign"):
            op = trl[:-6]
            v = I.binop(op, self.val(st, args[0]), self.val(st, args[1]))
            self.mutate(st, args[0], lambda s, p, old: (v, E.UNIT()))
            return st, E.UNIT()
        if trl == "Any" and m == "type_id":
            return st, mk("prim", "type_id", self.val(st, args[0]))
        if trl == "Try" or trl == "FromResidual":
            return None
        if trl == "Termination":
            return st, mk("prim", m)
        return None

    def deref1(self, st, a):
        v = self.deref(st, a)
        while v.op == "ref":
            v = self.I.load(st, v.a[0])
        return v

    def strip1(self, st, a):
        return a

    def un(self, v):
        """newtypes compare like their content"""
        if v.op == "agg" and v.a[0] in self.I.newtypes:
            return v.a[2][0]
        return v

    def wrote(self, st, out, span):
        """the result of writing; a text takes everything, a formatter need not"""
        v = self.val(st, out)
        return mk("prim", "fmt", E.c("s:" + ("" if v.op in ("coll", "choice", "agg") else repr(span))))

    def printed(self, st, fn, n, m, args, span, fr):
        """what goes to a formatter, as effects"""
        I = self.I
        arg = lambda kind, a: mk("prim", "fmtarg", kind, self.val(st, a))
        if "::rt::" in n and m.startswith("new_") and args:
            return st, arg(m[4:], args[0])
        if "Arguments" in fn.get("p", ""):
            if m in ("from_str", "new_const", "from_str_nonconst"):
                return st, mk("prim", "fmtargs")
            v = self.val(st, args[1]) if len(args) > 1 else None
            if v is not None and v.op == "agg" and v.a[0] == "[]":
                return st, mk("prim", "fmtargs", *v.a[2])
            return st, mk("prim", "fmtargs", mk("havoc", I.nseq()))
        if m == "write_fmt" and len(args) == 2:
            v = self.val(st, args[1])
            if v.op == "prim" and v.a[0] == "fmtargs":
                w = self.wrote(st, args[0], span)
                I.event(st, "print", None, v.a[1:], span, extra=w)
                return st, w
            return None
        if m in ("write_str", "write_char", "pad") and len(args) == 2:
            v = self.val(st, args[1])
            w = self.wrote(st, args[0], span)
            I.event(st, "print", None, v.a[1:] if v.op == "prim" and v.a[0] == "text" else (v,), span, extra=w)
            return st, w
        if m == "format" and args:
            v = self.val(st, args[0])
            return (st, mk("prim", "text", *v.a[1:])) if v.op == "prim" and v.a[0] == "fmtargs" else None
        if m.startswith("debug_") and m in ("debug_struct", "debug_map", "debug_list", "debug_set", "debug_tuple"):
            return st, mk("prim", "builder", E.c(I.nseq()))
        if m in ("alternate", "sign_plus", "sign_minus", "sign_aware_zero_pad"):
            return st, E.boolv(BDD.atom(mk("prim", "style", E.c("s:" + m))))
        if m in ("width", "precision", "fill", "align", "options"):
            return st, mk("prim", "style", E.c("s:" + m))
        if "builders" in n or "Debug" in fn.get("p", ""):
            if m in ("field", "entry", "key", "value"):
                vals = [arg("debug", a) for a in (args[2:] if "DebugStruct" in fn.get("p", "") else args[1:])]
                I.event(st, "print", None, tuple(vals), span, extra=self.val(st, args[1]) if "DebugStruct" in fn.get("p", "") else None)
                return st, args[0]
            if m == "entries" and len(args) == 2:
                def body(s, e):
                    if "DebugMap" in fn.get("p", ""):
                        es = (I.project(e, mk(".f", 0)), I.project(e, mk(".f", 1)))
                    else:
                        es = (e,)
                    I.event(s, "print", None, tuple(mk("prim", "fmtarg", "debug", self.val(s, x)) for x in es), span)
                    return s, []
                sty = self.P.ty(fr.crate, fn["a"][-1]) if fn.get("a") else None
                s, _ = self.consume(self.into_iter(st, args[1], sty, fr), st, body)
                return (s, args[0]) if s is not None else (None, None)
            if m in ("finish", "finish_non_exhaustive"):
                return st, mk("prim", "fmt")
        return None

    def eq_vals(self, st, a, b, sty, fr):
        while sty is not None and sty["k"] == "ref":
            sty = self.P.ty(fr.crate, sty["t"])
        if sty is not None and sty["k"] == "adt" and sty["n"].split("::")[-1] in ("OrderMap", "OrderSet") and a is not b:
            # these compare their entries in order
            a, b = self.I.srckey(a), self.I.srckey(b)
            return 1 if a is b else BDD.atom(mk("prim", "ordered_eq", *sorted((a, b), key=lambda x: x.id)))
        return self.I.eqv(a, b)

    def untuple(self, st, v):
        if v.op == "agg":
            return list(v.a[2])
        if v.op == "choice":
            n = max(len(x.a[2]) for _, x in v.a[0] if x.op == "agg")
            return [self.I.project(v, mk(".f", i)) for i in range(n)]
        return [self.I.project(v, mk(".f", 0))]

    def default(self, st, ty, fr):
        I = self.I
        cl = ty_class(ty)
        if cl:
            return self.new(st, cl)
        if ty is None:
            return mk("prim", "default")
        s = ty["s"]
        if s == "bool":
            return E.boolv(0)
        if s in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "i8", "i16", "u128", "i128"):
            return E.c(0)
        if ty.get("n") == E.OPTION:
            return E.none()
        if ty["k"] == "tuple":
            return E.agg("()", "", *[self.default(st, self.P.ty(fr.crate, x), fr) for x in ty["a"]])
        if ty["k"] == "adt" and ty["n"].split("::")[-1] == "Arc" and ty.get("a"):
            return mk("arc", I.nuid(), tuple(l for l, _ in st.loops), self.default(st, self.P.ty(fr.crate, ty["a"][0]), fr))
        if ty["k"] == "adt" and ty["n"].startswith("core::sync::atomic") and "Atomic" in ty["n"]:
            return mk("atomic", E.c(0))
        return mk("prim", "default", E.c(s))

    def clone(self, st, v, ty=None):
        I = self.I
        if v.op == "choice":
            return I.choice([(g, self.clone(st, x, ty)) for g, x in v.a[0]])
        if v.op == "agg":
            return E.agg(v.a[0], v.a[1], *[x if x.op == "ref" else self.clone(st, x) for x in v.a[2]])
        cl = ty_class(ty) if ty else None
        if v.op == "coll" or cl:
            kind = cl or (v.a[0].a[0] if v.op == "coll" and v.a[0].op == "new" else I.kind_of.get(self.origin(v), "seq"))
            if v.op == "coll" and v.a[3] is not None:
                n = self.new(st, kind, ())
                return mk("coll", n.a[0], 0, 0, v.a[3])
            src = I.srckey(v)
            lt = mk("loop", src, sum(1 for l, _ in st.loops if l.a[0] is src))
            value = self.src_elem(kind, src, lt)
            n = self.new(st, kind, ())
            return mk("coll", n.a[0], 0, 0, (mk("ctr", (lt,), 1, value),))
        return v

    def origin(self, v):
        return v.a[0] if v.op == "coll" else v

    def src_elem(self, kind, src, lt):
        if kind == "map":
            k = mk("key", lt)
            return E.tup(k, mk("mget", src, k))
        return mk("elem", lt)

    def index(self, st, recv, k, span, sty=None):
        I = self.I
        k = self.val(st, k)
        seq = ty_class(sty) == "seq"
        if k.op == "agg" and "Range" in k.a[0]:
            if k.a[0].endswith("RangeFull"):
                return st, recv
            v = self.deref1(st, recv)
            return st, self.dref(mk("prim", "slice", I.srckey(v), k))
        outs = []
        bad = 0
        for g, p in self.rootplace(st, recv):
            v = I.load(st, p)
            if seq:
                h = self.in_bounds(v, k)
            else:
                h = I.has(v, k)
            bad = BDD.OR(bad, BDD.AND(g, BDD.NOT(h)))
            outs.append((g, mk("ref", self.at(p, k))))
        b = BDD.AND(st.pc, bad)
        if b and BDD.AND(b, st.assume):
            s2 = st.copy()
            s2.pc = b
            I.event(s2, "panic", None, (E.c("s:index"),), span, extra="index")
            st.assume = BDD.AND(st.assume, BDD.OR(BDD.NOT(st.pc), BDD.NOT(bad)))
        return st, I.choice(outs)

    def in_bounds(self, v, k):
        I = self.I
        if k.op == "pos" and E.strip(k.a[0].a[0]) is E.strip(I.srckey(v)):
            return 1
        if k.op == "witness" and k.a[2].op == "pos" and E.strip(k.a[2].a[0].a[0]) is E.strip(I.srckey(v)):
            return 1
        if k.op == "choice":
            r = 0
            for g, x in k.a[0]:
                r = BDD.OR(r, BDD.AND(g, self.in_bounds(v, x)))
            return r
        ln = I.length(v)
        return I.lt(k, ln)

    # ------------------------------------------------------------------ iterators
    def it(self, kind, *a):
        return mk("it", kind, *a)

    def into_iter(self, st, v, sty, fr):
        I = self.I
        v = I.simp(v, st)
        if v.op == "it":
            return v
        if v.op == "choice":
            return I.choice([(g, self.into_iter(st, x, sty, fr)) for g, x in v.a[0]])
        mode = "val"
        ref = None
        if v.op == "ref":
            mode = "ref"
            if sty is not None and sty["k"] == "ref" and sty.get("m"):
                mode = "mut"
            ref = v
            x = I.load(st, v.a[0])
            if x.op == "it":
                return x
            while x.op == "ref":
                ref = x
                x = I.load(st, x.a[0])
            if sty is not None and sty["k"] == "ref":
                sty = self.P.ty(fr.crate, sty["t"])
            v = x
            if v.op == "choice":
                return I.choice([(g, self.mkiter(y, mode, ref, sty)) for g, y in v.a[0]])
        return self.mkiter(v, mode, ref, sty)

    def mkiter(self, v, mode, ref, sty, cl=None):
        cl = cl or (ty_class(sty) if sty else None)
        if v.op == "agg":
            if v.a[0] == E.OPTION:
                return self.it("opt", v, mode)
            if v.a[0].startswith("core::ops::range::Range"):
                return self.it("range", v)
            if v.a[0] != "[]":
                return self.it("src", "seq", v, "val", None)
        if cl is None and v.op == "coll" and v.a[0].op == "new":
            cl = v.a[0].a[0]
        if cl is None:
            cl = self.I.kind_of.get(self.origin(v), "seq")
        return self.it("src", cl, v, mode, ref if mode == "mut" else None)

    def itkey(self, st, it):
        """identity of an iterator value as a loop source"""
        I = self.I
        if it.op == "it":
            if it.a[0] == "src":
                return I.srckey(it.a[2])
            return mk("itkey", it.a[0], *[self.itkey(st, x) if isinstance(x, T) and x.op in ("it", "clos") else (I.srckey(x) if isinstance(x, T) else x) for x in it.a[1:]])
        if it.op == "clos":
            return mk("closkey", it.a[0], tuple(self.val(st, x) for x in it.a[1]))
        return I.srckey(it)

    def unref(self, st, it):
        for _ in range(10):
            if it.op == "ref":
                it = self.I.load(st, it.a[0])
            else:
                break
        return it

    ADAPT = {"map": "map", "filter": "filter", "filter_map": "fmap", "flat_map": "flat"}
    PARTIAL = ("skip", "take", "step_by", "skip_while", "take_while", "map_while", "scan", "cycle", "zip",
               "windows", "chunks", "array_chunks", "intersperse")

    def iterator(self, fr, fn, m, args, st, span, t):
        I = self.I
        it = self.unref(st, args[0]) if m not in ("next",) else args[0]
        if it.op == "choice" and m != "next":
            it = I.choice([(g, self.unref(st, x)) for g, x in it.a[0]])
        if m in self.ADAPT:
            return st, self.it(self.ADAPT[m], it, args[1])
        if m == "flatten":
            return st, self.it("flat", it, None)
        if m in ("copied", "cloned"):
            return st, self.it("copied", it)
        if m in ("by_ref", "into_iter", "fuse", "peekable"):
            return st, it
        if m == "rev":
            return st, self.it("rev", it)
        if m == "enumerate":
            return st, self.it("enum", it)
        if m == "inspect":
            return st, self.it("inspect", it, args[1])
        if m == "chain":
            return st, self.it("chain", it, self.into_iter(st, args[1], None, fr))
        if m in self.PARTIAL:
            extra = []
            for x in args[1:]:
                x = self.unref(st, x)
                if m == "zip":
                    x = self.into_iter(st, x, None, fr)
                extra.append(x)
            return st, self.it("partial", m, it, tuple(extra))
        if m in ("collect", "from_iter"):
            rty = None
            if fn.get("a"):
                rty = self.P.ty(fr.crate, fn["a"][-1])
            return self.collect(st, it, rty, span, fr)
        if m in ("any", "all"):
            return self.anyall(st, it, args[1], m)
        if m in ("for_each", "try_for_each"):
            if m == "try_for_each":
                rt = self.P.ty(fr.crate, fn["a"][-1]) if fn.get("a") else {}
                if rt.get("k") != "adt" or rt["n"] not in (E.RESULT, E.OPTION):
                    return self.unknown(fr, fn, m, args, st, span)
                # stops at the first failure and hands it on
                res = rt["n"] == E.RESULT
                s, v = self.find(st, it, args[1], "err" if res else "none", span)
                if s is None:
                    return None, None
                c = I.is_variant(v, I.variants(E.OPTION), "Some")
                bad = E.agg(E.RESULT, "Err", I.project(v, mk(".v", "Some", 0))) if res else E.none()
                good = E.agg(E.RESULT, "Ok", E.UNIT()) if res else E.some(E.UNIT())
                return s, good if c == 0 else bad if c == 1 else I.choice([(c, bad), (BDD.NOT(c), good)])

            def body(s, e):
                s2, _ = I.call_value(s, args[1], [e], span)
                return s2, []
            s, _ = self.consume(it, st, body)
            return (s, E.UNIT()) if s is not None else (None, None)
        if m == "fold":
            root = mk("L", I.nuid(), 0)
            st.store[root] = args[1]

            def body(s, e):
                s2, v = I.call_value(s, args[2], [s.store[root], e], span)
                if s2 is None:
                    return None, []
                s2.store[root] = v
                return s2, []
            s, _ = self.consume(it, st, body)
            if s is None:
                return None, None
            return s, s.store[root]
        if m in ("count", "len"):
            return st, self.count(st, it)
        if m == "size_hint":
            n = self.count(st, it)
            return st, E.tup(n, E.some(n))
        if m in ("max", "min", "sum", "product", "last", "max_by_key", "min_by_key", "max_by", "min_by"):
            s, col = self.collect(st, it, None, span, fr)
            if s is None:
                return None, None
            key = mk("agg_of", tuple(mk("ctr", *k.a) for k in col.a[3]) if col.a[3] is not None else I.srckey(col))
            extra = [self.itkey(st, x) for x in args[1:]]
            v = mk("prim", m, key, *extra)
            if m == "sum" and col.a[3] and all(not k.a[0] and k.a[1] == 1 for k in col.a[3]):
                v = self.un(col.a[3][0].a[2])
                for k in col.a[3][1:]:
                    v = I.binop("Add", v, self.un(k.a[2]))
            if m in ("sum", "product"):
                return s, v
            return s, self.opt(BDD.NOT(I.empty(col)), v)
        if m in ("find", "find_map", "position"):
            return self.find(st, it, args[1], m, span)
        if m == "reduce":
            return self.reduce(st, it, args[1], span, fr)
        if m in ("eq", "ne") and len(args) == 2:
            b = self.into_iter(st, args[1], None, fr)
            return st, E.boolv(BDD.atom(mk("eq", self.itkey(st, it), self.itkey(st, b))))
        if m == "next":
            cur = self.unref(st, args[0])
            if args[0].op == "ref" and self.filtering(cur):
                s, v = self.find(st, cur, None, "first", span)
                if s is not None:
                    self.mutate(s, args[0], lambda s_, p_, i_: (self.it("rest", cur), v))
                return s, v
        if m in ("next", "next_back"):
            return self.next(st, args[0], span)
        if m == "nth":
            return st, mk("prim", "nth", self.itkey(st, it), self.val(st, args[1]))
        if m == "partition":
            s1, a = self.collect(st, self.it("filter", it, args[1]), None, span, fr)
            s2, b = self.collect(s1, self.it("filternot", it, args[1]), None, span, fr)
            return s2, E.tup(a, b)
        if m == "unzip":
            s1, a = self.collect(st, self.it("proj", it, 0), None, span, fr)
            s2, b = self.collect(s1, self.it("proj", it, 1), None, span, fr)
            return s2, E.tup(a, b)
        return None

    def static_items(self, st, it, fuel=8):
        """the elements of an iterator over a list known element by element, or None"""
        I = self.I
        it = self.unref(st, it)
        if fuel == 0:
            return None
        if it.op == "agg" and it.a[0] == "[]":
            return list(it.a[2])
        if it.op != "it":
            return None
        k = it.a[0]
        if k == "src":
            v = it.a[2]
            if it.a[3] == "mut":
                return None
            w = (lambda x: x) if it.a[3] == "val" else self.dref
            if v.op == "agg" and v.a[0] == "[]":
                return [w(x) for x in v.a[2]]
            if v.op == "coll" and v.a[3] is not None and it.a[1] == "seq" and v.a[0] not in I.reversed and all(not x.a[0] and x.a[1] == 1 for x in v.a[3]):
                return [w(x.a[2]) for x in v.a[3]]
            return None
        if k == "empty":
            return []
        if k == "once":
            return [it.a[1]]
        if k in ("copied", "rev", "enum", "proj"):
            xs = self.static_items(st, it.a[1], fuel - 1)
            if xs is None:
                return None
            if k == "copied":
                return [self.deref(st, x) for x in xs]
            if k == "rev":
                return xs[::-1]
            if k == "proj":
                return [I.project(x, mk(".f", it.a[2])) for x in xs]
            return [E.tup(E.c(i), x) for i, x in enumerate(xs)]
        if k == "chain":
            a, b = self.static_items(st, it.a[1], fuel - 1), self.static_items(st, it.a[2], fuel - 1)
            return None if a is None or b is None else a + b
        if k == "range":
            v = it.a[1]
            if v.a[0] == "core::ops::range::Range" and all(x.op == "c" and isinstance(x.a[0], int) for x in v.a[2][:2]) and v.a[2][1].a[0] - v.a[2][0].a[0] <= 32:
                return [E.c(i) for i in range(v.a[2][0].a[0], v.a[2][1].a[0])]
            return None
        if k == "partial" and it.a[1] == "zip":
            a = self.static_items(st, it.a[2], fuel - 1)
            b = self.static_items(st, it.a[3][0], fuel - 1)
            fa, fb = self.counting(it.a[2]), self.counting(it.a[3][0])
            if a is None and fa is not None and b is not None:
                a = [E.c(fa + i) for i in range(len(b))]
            if b is None and fb is not None and a is not None:
                b = [E.c(fb + i) for i in range(len(a))]
            return None if a is None or b is None else [E.tup(x, y) for x, y in zip(a, b)]
        if k == "partial" and it.a[1] in ("take", "skip", "step_by") and len(it.a[3]) == 1 and it.a[3][0].op == "c":
            xs = self.static_items(st, it.a[2], fuel - 1)
            n = it.a[3][0].a[0]
            if xs is None or not isinstance(n, int):
                return None
            return xs[:n] if it.a[1] == "take" else xs[n:] if it.a[1] == "skip" else xs[::max(n, 1)]
        return None

    def counting(self, it):
        """start of an iterator that only counts upwards"""
        if it.op == "agg" and it.a[0] == "core::ops::range::RangeFrom" and it.a[2][0].op == "c":
            return it.a[2][0].a[0]
        if it.op == "it" and it.a[0] == "range" and it.a[1].a[0] == "core::ops::range::RangeFrom" and it.a[1].a[2][0].op == "c":
            return it.a[1].a[2][0].a[0]
        return None

    def filtering(self, it):
        while it.op == "it" and it.a[0] in ("map", "copied", "inspect"):
            it = it.a[1]
        return it.op == "it" and it.a[0] in ("filter", "fmap", "filternot")

    def next(self, st, recv, span):
        I = self.I

        def cb(s, p, it):
            if it.op == "choice":
                out, res = [], []
                for g, x in it.a[0]:
                    n, r = cb(s, p, x)
                    out.append((g, n))
                    res.append((g, r))
                return I.choice(out), I.choice(res)
            if it.op == "it" and it.a[0] == "opt":
                return self.it("empty"), it.a[1]
            if it.op == "it" and it.a[0] == "src" and it.a[2].op == "agg" and it.a[2].a[0] == "[]":
                xs = it.a[2].a[2]
                if not xs:
                    return it, E.none()
                v = xs[0] if it.a[3] == "val" else self.dref(xs[0])
                return self.it("src", it.a[1], E.agg("[]", "", *xs[1:]), it.a[3], it.a[4]), E.some(v)
            key = self.itkey(s, it)
            e = BDD.atom(mk("empty", key))
            cl = it.a[1] if it.op == "it" and it.a[0] == "src" else "seq"
            mode = it.a[3] if it.op == "it" and it.a[0] == "src" else "val"
            f = mk("prim", "first", key)
            if cl == "map":
                k = mk("field", f, 0)
                v = mk("field", f, 1)
                f = E.tup(k, v) if mode == "val" else E.tup(self.dref(k), self.dref(v))
            elif mode != "val":
                f = self.dref(f)
            return self.it("rest", it), self.opt(BDD.NOT(e), f)
        res = self.mutate(st, recv, cb)
        return st, res

    def count(self, st, it):
        I = self.I
        if it.op == "choice":
            return I.choice([(g, self.count(st, x)) for g, x in it.a[0]])
        if it.op == "it":
            k = it.a[0]
            if k == "src":
                return I.length(it.a[2])
            if k in ("map", "enum", "copied", "rev", "inspect", "proj"):
                return self.count(st, it.a[1])
            if k == "chain":
                return I.addn(self.count(st, it.a[1]), self.count(st, it.a[2]))
            if k == "once":
                return E.c(1)
            if k == "empty":
                return E.c(0)
        if it.op == "agg" and it.a[0] in self.P.adts:
            im = self.P.impls.get((ITER, it.a[0]))
            if im and "size_hint" in im:
                s2, v = I.run_function(self.P.bodies[im["size_hint"]], [self.tmp(st, it)], st.copy(), it.a[0])
                if v is not None:
                    return I.project(v, mk(".f", 0))
        return mk("len", self.itkey(st, it))

    def anyall(self, st, it, f, m):
        I = self.I
        root = mk("L", I.nuid(), 0)
        st.store[root] = E.boolv(0 if m == "any" else 1)

        def body(s, e):
            s2, v = I.call_value(s, f, [e])
            if s2 is None:
                return None, []
            cur = I.bdd(s2.store[root])
            b = I.bdd(v)
            s2.store[root] = E.boolv(BDD.OR(cur, b) if m == "any" else BDD.AND(cur, b))
            return s2, []
        s, _ = self.consume(it, st, body)
        if s is None:
            return None, None
        v = s.store[root]
        return s, E.boolv(I.bdd(v))

    def find(self, st, it, f, m, span):
        I = self.I
        # which element is found is only known by the condition it meets
        root = mk("L", I.nuid(), 0)
        st.store[root] = E.boolv(0)
        col = []

        def body(s, e):
            if m == "first":
                s2, v = s, e
            elif m == "find":
                s2, v = I.call_value(s, f, [self.tmp(s, e)])
            else:
                s2, v = I.call_value(s, f, [e])
            if s2 is None:
                return None, []
            if m == "find_map":
                b = I.is_variant(v, I.variants(E.OPTION), "Some")
                res = I.project(v, mk(".v", "Some", 0))
            elif m == "err":
                b = I.is_variant(v, I.variants(E.RESULT), "Err")
                res = I.project(v, mk(".v", "Err", 0))
            elif m == "none":
                b, res = I.is_variant(v, I.variants(E.OPTION), "None"), E.UNIT()
            elif m == "first":
                b, res = BDD.restrict(s2.pc, st.pc), e
            else:
                b = I.bdd(v)
                res = e if m == "find" else E.c(len(col)) if self.static_items(st, it) is not None else (
                    mk("pos", s2.loops[len(st.loops)][0]) if it.op == "it" and it.a[0] == "src" and len(s2.loops) == len(st.loops) + 1 else mk("idx", self.itkey(st, it)))
            cur = I.bdd(s2.store[root])
            s2.store[root] = E.boolv(BDD.OR(cur, b))
            col.append((tuple(l for l, _ in s2.loops[len(st.loops):]), b, self.val(s2, res), res))
            return s2, []
        s, _ = self.consume(it, st, body)
        if s is None:
            return None, None
        ex = I.bdd(s.store[root])
        if not col:
            return s, E.none()
        # a loop may have been run through several times until nothing changed
        col = [x for i, x in enumerate(col) if not x[0] or not any(y[0] == x[0] and y[1] == x[1] and y[2] is x[2] for y in col[i + 1:])]
        loops, b, v, res = col[-1]
        if len(col) > 1 or not loops:
            if any(x[0] for x in col):
                return s, self.opt(ex, mk("rv", "found", self.itkey(st, it)))
            before, alt = 0, []
            for _, g, _, r in col:
                alt.append((BDD.AND(g, BDD.NOT(before)), r))
                before = BDD.OR(before, g)
            alt.append((BDD.NOT(before), alt[-1][1]))
            return s, self.opt(ex, I.choice([x for x in alt if x[0] != 0]))
        w = mk("witness", loops, b, v)
        if res.op == "ref":
            w = self.dref(w)
        elif res.op == "agg":
            w = E.agg(res.a[0], res.a[1], *[self.dref(mk("witness", loops, b, self.val(s, x))) if x.op == "ref" else mk("witness", loops, b, x) for x in res.a[2]])
        return s, self.opt(ex, w)

    def reduce(self, st, it, f, span, fr):
        I = self.I
        if it.op == "it" and it.a[0] == "src" and it.a[2].op == "agg" and it.a[2].a[0] == "[]":
            xs = it.a[2].a[2]
            if not xs:
                return st, E.none()
            acc = xs[0]
            for x in xs[1:]:
                st, acc = I.call_value(st, f, [acc, x], span)
                if st is None:
                    return None, None
            return st, E.some(acc)
        key = self.itkey(st, it)
        return st, self.opt(BDD.NOT(BDD.atom(mk("empty", key))), mk("prim", "reduce", key, self.itkey(st, f)))

    def collect(self, st, it, rty, span, fr):
        I = self.I
        cl = ty_class(rty) or "seq"
        if rty is not None and rty.get("n") in (E.RESULT, E.OPTION):
            return st, mk("prim", "try_collect", self.itkey(st, it))
        col = self.new(st, cl)
        root = mk("L", I.nuid(), 0)
        st.store[root] = col

        def body(s, e):
            cur = s.store[root]
            if cl == "map" and e.op == "agg":
                I.event(s, "ins", cur.a[0], tuple(self.val(s, I.project(e, mk(".f", i))) for i in (0, 1)), span, old=cur)
            s.store[root] = I.bump(cur, True, self.add_contrib(s, cur, e))
            return s, []
        s, _ = self.consume(it, st, body)
        if s is None:
            return None, None
        v = s.store.pop(root)
        if self.is_rev(it):
            I.reversed.add(v.a[0])
        return s, v

    def is_rev(self, it):
        if it.op != "it":
            return False
        if it.a[0] == "rev":
            return not self.is_rev(it.a[1])
        if it.a[0] in ("map", "filter", "fmap", "flat", "enum", "copied", "inspect", "proj"):
            return self.is_rev(it.a[1])
        if it.a[0] == "src" and it.a[2].op == "coll":
            return it.a[2].a[0] in self.I.reversed
        return False

    def extend(self, st, recv, it, sty, span):
        I = self.I
        cl = ty_class(sty)

        def body(s, e):
            if cl == "map":
                k, v = I.project(e, mk(".f", 0)), I.project(e, mk(".f", 1))
                self.m_insert(s, recv, self.val(s, k), v, span)
            elif cl == "set":
                self.s_insert(s, recv, self.val(s, e), span)
            else:
                self.push(s, recv, e, span)
            return s, []
        s, _ = self.consume(it, st, body)
        return (s, E.UNIT()) if s is not None else (None, None)

    # consumption ------------------------------------------------------
    def consume(self, it, st, fn, rev=False):
        """read the iteration of it with body fn(state, element) -> (state|None, exits)"""
        I = self.I
        it = I.simp(self.unref(st, it), st)
        if it.op == "choice":
            outs, exits = [], []
            for g, x in it.a[0]:
                s = st.copy()
                s.pc = BDD.AND(st.pc, g)
                if s.pc == 0:
                    continue
                s2, ex = self.consume(x, s, fn, rev)
                outs.append(s2)
                exits += ex
            return I.join([o for o in outs if o is not None]), exits
        if it.op != "it":
            return self.consume_src("seq", it, "val", None, st, fn, rev)
        k = it.a[0]
        if k == "src":
            return self.consume_src(it.a[1], it.a[2], it.a[3], it.a[4], st, fn, rev)
        if k == "empty":
            return st, []
        if k == "once":
            return fn(st, it.a[1])
        if k == "opt":
            v = it.a[1]
            c = I.is_variant(v, I.variants(E.OPTION), "Some")
            x = I.project(v, mk(".v", "Some", 0))
            return self.guarded(st, c, lambda s: fn(s, x))
        if k == "map":
            def body(s, e):
                s2, v = I.call_value(s, it.a[2], [e])
                if s2 is None:
                    return None, []
                return fn(s2, v)
            return self.consume(it.a[1], st, body, rev)
        if k == "hasfilter":
            def body(s, e):
                h = I.has(it.a[2], self.val(s, e))
                return self.guarded(s, h if it.a[3] else BDD.NOT(h), lambda s3: fn(s3, e))
            return self.consume(it.a[1], st, body, rev)
        if k == "inspect":
            def body(s, e):
                s2, _ = I.call_value(s, it.a[2], [self.tmp(s, e)])
                if s2 is None:
                    return None, []
                return fn(s2, e)
            return self.consume(it.a[1], st, body, rev)
        if k in ("filter", "filternot"):
            def body(s, e):
                s2, v = I.call_value(s, it.a[2], [self.tmp(s, e)])
                if s2 is None:
                    return None, []
                b = I.bdd(v)
                if k == "filternot":
                    b = BDD.NOT(b)
                return self.guarded(s2, b, lambda s3: fn(s3, e))
            return self.consume(it.a[1], st, body, rev)
        if k == "fmap":
            def body(s, e):
                s2, v = I.call_value(s, it.a[2], [e])
                if s2 is None:
                    return None, []
                v = I.simp(v, s2)
                b = I.is_variant(v, I.variants(E.OPTION), "Some")
                x = I.project(v, mk(".v", "Some", 0))
                return self.guarded(s2, b, lambda s3: fn(s3, x))
            return self.consume(it.a[1], st, body, rev)
        if k == "flat":
            def body(s, e):
                if it.a[2] is not None:
                    s, e = I.call_value(s, it.a[2], [e])
                    if s is None:
                        return None, []
                e = self.into_iter(s, e, None, None)
                return self.consume(e, s, fn, rev)
            return self.consume(it.a[1], st, body, rev)
        if k == "proj":
            return self.consume(it.a[1], st, lambda s, e: fn(s, I.project(e, mk(".f", it.a[2]))), rev)
        if k == "copied":
            return self.consume(it.a[1], st, lambda s, e: fn(s, self.deref(s, e)), rev)
        if k == "rev":
            return self.consume(it.a[1], st, fn, not rev)
        if k == "chain":
            a, b = (it.a[1], it.a[2]) if not rev else (it.a[2], it.a[1])
            s, ex = self.consume(a, st, fn, rev)
            if s is None:
                return None, ex
            s2, ex2 = self.consume(b, s, fn, rev)
            return s2, ex + ex2
        if k == "enum":
            inner = it.a[1]
            base = inner
            while base.op == "it" and base.a[0] in ("copied", "map", "inspect"):
                base = base.a[1]
            direct = base.op == "it" and base.a[0] == "src" and not (
                base.a[2].op == "coll" and base.a[2].a[3] is not None) and not (base.a[2].op == "agg")
            cnt = [0]
            if base.op == "it" and base.a[0] == "src" and base.a[2].op == "agg" and base.a[2].a[0] == "[]":
                def body0(s, e):
                    i = E.c(cnt[0])
                    cnt[0] += 1
                    return fn(s, E.tup(i, e))
                return self.consume(inner, st, body0, rev)

            def body(s, e):
                if direct:
                    i = mk("pos", s.loops[len(st.loops)][0])
                else:
                    i = mk("idx", self.itkey(st, inner))
                return fn(s, E.tup(i, e))
            return self.consume(inner, st, body, rev)
        if k == "range":
            v = it.a[1]
            if v.a[0] == "core::ops::range::Range":
                lo, hi = v.a[2][0], v.a[2][1]
                if lo.op == "c" and lo.a[0] == 0 and hi.op == "len":
                    src = hi.a[0]
                    return self.foreach(st, src, fn, lambda lt: mk("pos", lt), rev)
                if lo.op == "c" and hi.op == "c" and hi.a[0] - lo.a[0] <= 16:
                    exits = []
                    for i in range(lo.a[0], hi.a[0]):
                        st, ex = fn(st, E.c(i))
                        exits += ex
                        if st is None:
                            break
                    return st, exits
            return self.foreach(st, self.itkey(st, it), fn, lambda lt: mk("elem", lt), rev)
        if k == "partial":
            xs = self.static_items(st, it)
            if xs is not None:
                return self.consume(self.it("src", "seq", E.agg("[]", "", *xs), "val", None), st, fn, rev)
        if k == "partial" and it.a[1] == "zip":
            src = self.itkey(st, it)
            a = it.a[2]
            b = it.a[3][0]
            if self.counting(a) == 0:
                return self.consume(self.it("enum", b), st, fn, rev)
            if self.counting(b) == 0:
                return self.consume(self.it("enum", a), st, lambda s, e: fn(s, E.tup(I.project(e, mk(".f", 1)), I.project(e, mk(".f", 0)))), rev)
            return self.foreach(st, src, fn, lambda lt: E.tup(mk("field", mk("elem", lt), 0), mk("field", mk("elem", lt), 1)), rev)
        # anything else is a source of its own: elements unknown
        return self.foreach(st, self.itkey(st, it), fn, lambda lt: self.partial_elem(it, lt), rev)

    def partial_elem(self, it, lt):
        e = mk("elem", lt)
        base = it
        while base.op == "it" and base.a[0] in ("partial", "rest"):
            base = base.a[2] if base.a[0] == "partial" else base.a[1]
        if base.op == "it" and base.a[0] == "src" and base.a[3] != "val":
            if base.a[1] == "map":
                return E.tup(self.dref(mk("field", e, 0)), self.dref(mk("field", e, 1)))
            return self.dref(e)
        return e

    def guarded(self, st, c, fn):
        I = self.I
        k = BDD.AND(st.pc, st.assume)
        if BDD.AND(k, BDD.NOT(c)) == 0:
            return fn(st)
        s1 = st.copy()
        s1.pc = BDD.AND(st.pc, c)
        s2 = st.copy()
        s2.pc = BDD.AND(st.pc, BDD.NOT(c))
        if s1.pc == 0 or BDD.AND(k, c) == 0:
            return s2, []
        a, ex = fn(s1)
        return I.join([x for x in (a, s2) if x is not None]), ex

    def foreach(self, st, src, fn, mkelem, rev):
        I = self.I
        u0 = I.uid
        after, exits = I.foreach(st, src, fn, mkelem, rev)
        return after, exits

    def consume_src(self, cl, v, mode, ref, st, fn, rev):
        I = self.I
        if v.op == "choice":
            outs, exits = [], []
            for g, x in v.a[0]:
                s = st.copy()
                s.pc = BDD.AND(st.pc, g)
                if s.pc == 0:
                    continue
                s2, ex = self.consume_src(cl, x, mode, ref, s, fn, rev)
                outs.append(s2)
                exits += ex
            return I.join([o for o in outs if o is not None]), exits
        wrap = (lambda x: x) if mode == "val" else self.dref
        if v.op == "agg" and v.a[0] == "[]":
            xs = list(v.a[2])
            if rev:
                xs.reverse()
            exits = []
            for i, x in enumerate(xs):
                e = wrap(x)
                if mode == "mut" and ref is not None:
                    e = mk("ref", self.at(ref.a[0], E.c(i)))
                st, ex = fn(st, e)
                exits += ex
                if st is None:
                    break
            return st, exits
        if v.op == "coll" and v.a[3] is not None and mode != "mut":
            exits = []
            isrev = rev != (v.a[0] in I.reversed)
            cs = list(v.a[3])
            if isrev:
                cs.reverse()
            for k in cs:
                st, ex = self.consume_ctr(cl, k, mode, st, fn, isrev)
                exits += ex
                if st is None:
                    break
            return st, exits
        if v.op == "prim" and v.a[0].startswith("call:") and False:
            pass
        src = I.srckey(v)

        def mkelem(lt):
            if cl in ("map", "arena"):
                k = mk("key", lt)
                if mode == "mut" and ref is not None:
                    val = mk("ref", self.at(ref.a[0], k))
                elif mode == "val":
                    val = mk("mget", src, k)
                else:
                    val = self.dref(mk("mget", src, k))
                if cl == "arena":
                    return E.tup(k, val)
                return E.tup(wrap(k), val)
            if mode == "mut" and ref is not None and cl == "seq":
                return mk("ref", self.at(ref.a[0], mk("pos", lt)))
            return wrap(mk("elem", lt))
        if v.op == "coll" and v.a[0] in I.reversed:
            rev = not rev
        return self.foreach(st, src, fn, mkelem, rev)

    def consume_ctr(self, cl, k, mode, st, fn, rev):
        """one contribution: all its loops, then its guard, then the element"""
        I = self.I
        loops, g, value = k.a[0], k.a[1], k.a[2]

        def go(s, ls, sub):
            if not ls:
                gg, vv = g, value
                if sub:
                    rw = rewrite(None, lambda x: sub.get(x, x))
                    gg = rw.bdd(g)
                    vv = rw(value)
                if cl == "map":
                    e = E.tup(*[x if mode == "val" else self.dref(x) for x in
                                (I.project(vv, mk(".f", 0)), I.project(vv, mk(".f", 1)))])
                elif cl == "arena":
                    a, b = I.project(vv, mk(".f", 0)), I.project(vv, mk(".f", 1))
                    e = E.tup(a, b if mode == "val" else self.dref(b))
                else:
                    e = vv if mode == "val" else self.dref(vv)
                if gg == 1:
                    return fn(s, e)
                return self.guarded(s, gg, lambda s2: fn(s2, e))
            lt = ls[0]
            src = lt.a[0]
            if sub:
                src = rewrite(None, lambda x: sub.get(x, x))(src)

            def body(s2, lt2):
                sb = sub
                if lt2 is not lt:
                    sb = dict(sub)
                    sb[lt] = lt2
                return go(s2, ls[1:], sb)
            return I.foreach(s, src, body, lambda l: l, rev)
        return go(st, loops, {})

    # ------------------------------------------------------------------ collection operations
    def s_insert(self, st, recv, k, span):
        I = self.I

        def cb(s, p, old):
            c = I.as_coll(old)
            h = I.has(old, k)
            q = I.event(s, "ins", I.path_of(s, p), (k,), span, old=old)
            con = self.add_contrib(s, c, k)
            return I.bump(old, True, con, ("ins", k, s.pc), q), E.boolv(BDD.NOT(h))
        return self.mutate(st, recv, cb)

    def m_insert(self, st, recv, k, v, span):
        I = self.I
        vv = v

        def cb(s, p, old):
            c = I.as_coll(old)
            h = I.has(old, k)
            q = I.event(s, "ins", I.path_of(s, p), (k, self.val(s, vv)), span, old=old)
            con = None
            if c.a[3] is not None:
                con = c.a[3] + (self.ctr(s, c, E.tup(k, vv)),)
            prev = I.mget(old, k)
            return I.bump(old, True, con, ("ins", k, s.pc, vv), q), self.opt(h, prev)
        return self.mutate(st, recv, cb)

    def push(self, st, recv, v, span):
        I = self.I

        def cb(s, p, old):
            c = I.as_coll(self.from_array(s, old))
            q = I.event(s, "push", I.path_of(s, p), (self.val(s, v),), span, old=old)
            con = None
            if c.a[3] is not None:
                con = c.a[3] + (self.ctr(s, c, v),)
            return I.bump(c, True, con, ("ins", v, s.pc), q), E.UNIT()
        return self.mutate(st, recv, cb)

    def remove(self, st, recv, k, span, result):
        I = self.I

        def cb(s, p, old):
            h = I.has(old, k)
            prev = I.mget(old, k)
            q = I.event(s, "rem", I.path_of(s, p), (k,), span, old=old)
            new = I.bump(old, True, None, ("rem", k, s.pc), q)
            if result == "bool":
                return new, E.boolv(h)
            if result == "key":
                return new, self.opt(h, k)
            if result == "entry":
                return new, self.opt(h, E.tup(k, prev))
            return new, self.opt(h, prev)
        return self.mutate(st, recv, cb)

    def coll_class(self, fn):
        return mod_class((fn.get("r") or fn)["n"])

    def clear(self, st, recv, span):
        I = self.I

        def cb(s, p, old):
            q = I.event(s, "clear", I.path_of(s, p), (), span, old=old)
            c = I.as_coll(old)
            con = () if (c.a[3] is not None and s.pc == I.coll_pc.get(c.a[0]) and len(s.loops) == self.depth(c)) else None
            return I.bump(old, True, con, ("clear", None, s.pc), q), old
        return self.mutate(st, recv, cb)

    def retain(self, st, recv, f, span, cl):
        I = self.I
        pls = self.rootplace(st, recv)
        p = pls[0][1]
        old = I.load(st, p)
        ref = mk("ref", p)
        if cl == "seq" and len(pls) == 1 and (old.op == "agg" and old.a[0] == "[]" or old.op == "coll" and old.a[3] is not None and old.a[0].op == "new"):
            s, col = self.collect(st, self.it("filter", self.it("src", "seq", old, "val", None), f), None, span, None)
            if s is None:
                return None, None
            self.assign(s, ref, col, span)
            return s, E.UNIT()
        if cl == "seq":
            it = self.it("src", "seq", old, "ref", None)
        else:
            it = self.it("src", cl, old, "ref", None)
        kept = []

        def body(s, e):
            if cl == "map":
                a = [self.dref(self.val(s, e.a[2][0])), self.dref(self.val(s, e.a[2][1]))]
                key = self.val(s, e.a[2][0])
            else:
                a = [self.dref(self.val(s, e))]
                key = self.val(s, e)
            s2, v = I.call_value(s, f, a, span)
            if s2 is None:
                return None, []
            b = BDD.NOT(I.bdd(v))
            kept.append((key, BDD.NOT(b)))

            def rm(s3):
                self.remove(s3, ref, key, span, "bool")
                return s3, []
            return self.guarded(s2, b, rm)
        s, _ = self.consume(it, st, body)
        if s is None:
            return None, None
        new = I.load(s, p)
        if new.op == "coll" and len(kept) > 0 and len(set(kept)) == 1 and kept[0][0].op in ("elem", "key") and old.op != "choice":
            I.shape_ev[new.a[1]] = (("filter", kept[0][0], kept[0][1], s.pc), old)
        return s, E.UNIT()

    def append(self, st, a, b, span):
        I = self.I
        other = self.deref1(st, b)

        def cb(s, p, old):
            c = I.as_coll(old)
            q = I.event(s, "append", I.path_of(s, p), (self.val(s, other),), span, old=old)
            con = None
            oc = I.as_coll(other)
            if c.a[3] is not None and oc.a[3] is not None:
                con = c.a[3] + oc.a[3]
            return I.bump(c, True, con, ("append", other, s.pc), q), E.UNIT()
        r = self.mutate(st, a, cb)
        self.clear(st, b, span)
        return r

    def lib_call(self, fr, fn, m, args, st, span, sty, t):
        I = self.I
        n = (fn.get("r") or fn)["n"]
        cl = mod_class(n)
        if cl == "entry":
            return self.entry(m, args, st, span, n, fn, fr)
        if cl is None and fn.get("self") is not None:
            cl = ty_class(sty)
        if cl and "::iter" not in n.split("{impl")[0]:
            x = self.collop(cl, m, args, st, span, fn, fr, sty)
            if x is not None:
                return x
        if n.startswith("core::option") or n.startswith("core::result") or n.startswith("core::bool"):
            return self.option(m, args, st, span, n)
        if n.startswith("core::mem::"):
            if m in ("drop", "forget"):
                return st, E.UNIT()
            if m == "take":
                old = self.deref1(st, args[0])
                ty = self.P.ty(fr.crate, fn["a"][0]) if fn.get("a") else None
                if ty_class(ty):
                    self.clear(st, args[0], span)
                    c = I.as_coll(old)
                    return st, c
                d = self.default(st, ty, fr)
                self.assign(st, args[0], d, span)
                return st, old
            if m == "replace":
                old = self.deref1(st, args[0])
                self.assign(st, args[0], args[1], span)
                return st, old
            if m == "swap":
                a, b = self.deref1(st, args[0]), self.deref1(st, args[1])
                self.assign(st, args[0], b, span)
                self.assign(st, args[1], a, span)
                return st, E.UNIT()
        if n.startswith("alloc::boxed") or n.startswith("alloc::rc"):
            if m == "new" and "boxed" in n:
                return st, args[0]
            if m == "new":
                return st, mk("arc", I.nuid(), tuple(l for l, _ in st.loops), args[0])
            if m in ("into_vec",):
                return st, self.from_array(st, args[0])
            if "boxed" in n:
                return st, args[0] if args else mk("prim", m)
            if m in ("as_ref", "deref"):
                return st, args[0]
        if m in ("box_new", "box_assume_init_into_vec_unsafe", "into_vec", "exchange_malloc"):
            return st, self.from_array(st, args[0]) if "vec" in m else args[0]
        if n.startswith("core::hint") or m == "must_use":
            return st, args[0] if args else E.UNIT()
        if n.startswith("core::iter::sources") or n.startswith("core::iter::"):
            if m == "once":
                return st, self.it("once", args[0])
            if m == "empty":
                return st, self.it("empty")
            if m in ("repeat", "repeat_with", "from_fn", "successors", "repeat_n"):
                return st, self.it("partial", m, self.it("empty"), tuple(args))
            if m == "zip":
                return st, self.it("partial", "zip", self.into_iter(st, args[0], None, fr), (self.into_iter(st, args[1], None, fr),))
        if n.startswith("core::sync::atomic") or "::atomic" in n:
            if m == "new":
                return st, mk("atomic", args[0])
            if m in ("fetch_update", "try_update", "update"):
                r = self.fetch_update(st, m, args, span, fr)
                if r is not None:
                    return r
            v = [self.val(st, a) for a in args]
            p = self.rootplace(st, args[0])[0][1]
            q = I.event(st, "atomic", I.path_of(st, p), v[1:], span, extra=m)
            if m in ("fetch_add", "fetch_sub", "load", "swap", "fetch_max"):
                return st, mk("fetched", m, q, tuple(l for l, _ in st.loops), *v[:2])
            return st, mk("prim", "atomic_" + m, *v)
        if m == "new_v4" or n.startswith("uuid") and m.startswith("new_v"):
            return st, mk("fresh", "uuid", I.nseq(), tuple(l for l, _ in st.loops))
        if n.startswith("uuid") and m in ("nil", "max", "from_u128", "from_bytes", "from_u64_pair", "default"):
            return st, mk("uuidc", m, *[self.val(st, a) for a in args])
        if m in ("downcast_ref", "downcast_mut"):
            v = self.val(st, args[0])
            ty = self.P.ty(fr.crate, fn["a"][-1])["s"] if fn.get("a") else "?"
            return st, self.opt(BDD.atom(mk("istype", v, ty)), args[0])
        if m == "type_id" or n.endswith("TypeId::of") or (m == "of" and "any" in n):
            ty = self.P.ty(fr.crate, fn["a"][-1])["s"] if fn.get("a") else "?"
            return st, mk("prim", "typeid", E.c("s:" + ty))
        if I.printing and ("::fmt::" in n or n.startswith("core::fmt")):
            r = self.printed(st, fn, n, m, args, span, fr)
            if r is not None:
                return r
        if "::fmt::" in n or n.startswith("core::fmt") or n.startswith("alloc::fmt") or m == "type_name":
            if t.get("t", 0) is None:
                return None
            return st, mk("prim", "fmt")
        if n.startswith("core::num") or n.startswith("core::cmp"):
            if t.get("t", 0) is None:
                return None
            v = [self.un(self.val(st, a)) for a in args]
            if m in ("wrapping_add", "saturating_add", "unchecked_add"):
                return st, I.binop("Add", v[0], v[1])
            if m in ("wrapping_sub", "unchecked_sub"):
                return st, I.binop("Sub", v[0], v[1])
            if m == "checked_add":
                # an overflow of a count or an index is out of reach, as in the plain operators
                return st, self.opt(1, I.binop("Add", v[0], v[1]))
            if m in ("max", "min"):
                return st, mk("prim", m, *sorted(v, key=lambda x: x.id))
            return st, mk("prim", m, *v)
        if n.startswith("core::ptr") and m in ("drop_in_place",):
            return st, E.UNIT()
        if n.startswith("core::convert") and args:
            return st, args[0]
        return None

    def assign(self, st, recv, v, span):
        I = self.I

        def cb(s, p, old):
            if I.visible(p):
                I.event(s, "assign", I.path_of(s, p), (self.val(s, v),), span)
            return v, E.UNIT()
        return self.mutate(st, recv, cb)

    def option(self, m, args, st, span, n):
        I = self.I
        if m in ("take", "replace", "insert", "get_or_insert", "get_or_insert_with"):
            old = self.deref1(st, args[0])
            if m == "take":
                self.assign(st, args[0], E.none(), span)
                return st, old
            if m == "replace":
                self.assign(st, args[0], E.some(args[1]), span)
                return st, old
        if m in ("as_deref", "as_deref_mut"):
            return None
        if m in ("copied", "cloned"):
            v = args[0]
            c = I.is_variant(v, I.variants(E.OPTION), "Some")
            x = I.project(v, mk(".v", "Some", 0))
            return st, self.opt(c, self.deref(st, x))
        if m in ("iter", "into_iter", "iter_mut"):
            v = self.deref1(st, args[0])
            if m == "into_iter":
                return st, self.it("opt", args[0], "val")
            c = I.is_variant(v, I.variants(E.OPTION), "Some")
            x = I.project(v, mk(".v", "Some", 0))
            return st, self.it("opt", self.opt(c, self.dref(x)), "val")
        return None

    ITERS = {"iter": ("pairs", "ref"), "iter_mut": ("pairs", "mut"), "into_iter": ("pairs", "val")}

    def collop(self, cl, m, args, st, span, fn, fr, sty):
        I = self.I
        if m in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "new_in", "default"):
            return st, self.new(st, cl)
        if not args:
            return None
        if m in ("reserve", "shrink_to_fit", "reserve_exact", "try_reserve", "shrink_to"):
            return st, E.UNIT()
        if m in ("capacity", "hasher", "as_ptr"):
            return st, mk("prim", m)
        if m in ("as_slice", "as_mut_slice", "as_str", "deref", "as_ref", "as_mut", "borrow", "as_bytes", "by_ref",
                 "into_boxed_slice", "into_bytes"):
            v = self.deref(st, args[0])
            return st, (v if v.op == "ref" else args[0])
        recv = args[0]
        if m == "len":
            return st, I.length(self.deref1(st, recv))
        if m == "is_empty":
            return st, E.boolv(I.empty(self.deref1(st, recv)))
        if m == "clear":
            self.clear(st, recv, span)
            return st, E.UNIT()
        if m in ("iter", "iter_mut", "into_iter", "drain", "keys", "values", "values_mut", "into_keys", "into_values",
                 "into_sorted_vec"):
            mode = "mut" if m in ("iter_mut", "values_mut") else ("ref" if m in ("iter", "keys", "values") else "val")
            if m == "drain":
                if len(args) > 1 and not (args[1].op in ("agg", "const") and "RangeFull" in str(args[1].a[0])):
                    return None
                v = self.deref1(st, recv)
                self.clear(st, recv, span)
                return st, self.mkiter(v, "val", None, None, cl)
            if recv.op == "ref" or recv.op == "choice":
                pls = self.rootplace(st, recv)
                outs = []
                for g, p in pls:
                    outs.append((g, self.mkiter(I.load(st, p), mode, mk("ref", p), None, cl)))
                it = I.choice(outs)
            else:
                it = self.mkiter(recv, mode, None, None, cl)
            if m in ("keys", "into_keys"):
                return st, self.it("proj", it, 0)
            if m in ("values", "values_mut", "into_values"):
                return st, self.it("proj", it, 1)
            return st, it
        if m == "retain" or m == "retain_mut":
            return self.retain(st, recv, args[1], span, cl)
        if m == "append" or (m == "extend_from_slice") or m == "extend":
            if m == "append":
                self.append(st, recv, args[1], span)
                return st, E.UNIT()
            it = self.into_iter(st, args[1], None, fr)
            if m == "extend_from_slice":
                it = self.it("copied", it)
            return self.extend(st, recv, it, {"k": "slice"} if cl == "seq" else sty, span)
        if cl in ("map", "set"):
            if m in ("contains", "contains_key"):
                return st, E.boolv(I.has(self.deref1(st, recv), self.val(st, args[1])))
            if m in ("set_eq", "eq"):
                a, b = self.deref1(st, recv), self.deref1(st, args[1])
                return st, E.boolv(BDD.atom(mk("eq", *sorted((I.srckey(a), I.srckey(b)), key=lambda x: x.id))))
            if m in ("is_subset", "is_superset", "is_disjoint"):
                return st, E.boolv(BDD.atom(mk("prim", m, I.srckey(self.deref1(st, recv)), I.srckey(self.deref1(st, args[1])))))
            if m == "get_index_of":
                k = self.val(st, args[1])
                v = self.deref1(st, recv)
                return st, self.opt(I.has(v, k), mk("prim", "index_of", I.srckey(v), k))
            if m in ("sort", "sort_keys", "sort_by", "sort_unstable", "sort_unstable_keys", "sort_by_key", "reverse"):
                self.reorder(st, recv, span, m)
                return st, E.UNIT()
        if cl == "set":
            if m in ("insert", "insert_full", "insert_sorted", "replace"):
                r = self.s_insert(st, recv, self.val(st, args[1]), span)
                if m == "insert_full":
                    return st, E.tup(mk("prim", "index"), r)
                if m == "replace":
                    return st, mk("prim", "replaced")
                return st, r
            if m in ("remove", "swap_remove", "shift_remove"):
                return st, self.remove(st, recv, self.val(st, args[1]), span, "bool")
            if m in ("take", "swap_take", "shift_take"):
                return st, self.remove(st, recv, self.val(st, args[1]), span, "key")
            if m == "get":
                k = self.val(st, args[1])
                return st, self.opt(I.has(self.deref1(st, recv), k), self.dref(k))
            if m in ("union", "difference", "intersection", "symmetric_difference"):
                a, b = self.deref1(st, recv), self.deref1(st, args[1])
                ia = self.mkiter(a, "ref", None, None, "set")
                ib = self.mkiter(b, "ref", None, None, "set")
                fa = mk("setfilter", b, m)
                if m == "difference":
                    return st, self.it("hasfilter", ia, b, False)
                if m == "intersection":
                    return st, self.it("hasfilter", ia, b, True)
                if m == "union":
                    return st, self.it("chain", ia, self.it("hasfilter", ib, a, False))
                return st, self.it("chain", self.it("hasfilter", ia, b, False), self.it("hasfilter", ib, a, False))
            if m in ("first", "last", "pop", "pop_first", "pop_last", "get_index"):
                return self.first(st, recv, m, span, cl, args)
        if cl == "map":
            if m in ("insert", "insert_full", "insert_sorted"):
                r = self.m_insert(st, recv, self.val(st, args[1]), args[2], span)
                if m == "insert_full":
                    return st, E.tup(mk("prim", "index"), r)
                return st, r
            if m in ("remove", "swap_remove", "shift_remove"):
                return st, self.remove(st, recv, self.val(st, args[1]), span, "val")
            if m in ("remove_entry", "swap_remove_entry", "shift_remove_entry"):
                return st, self.remove(st, recv, self.val(st, args[1]), span, "entry")
            if m in ("get", "get_mut", "get_key_value", "get_full"):
                k = self.val(st, args[1])
                outs = []
                for g, p in self.rootplace(st, recv):
                    h = I.has(I.load(st, p), k)
                    v = mk("ref", self.at(p, k))
                    if m == "get_key_value":
                        v = E.tup(self.dref(k), v)
                    if m == "get_full":
                        v = E.tup(mk("prim", "index"), self.dref(k), v)
                    outs.append((g, self.opt(h, v)))
                return st, I.choice(outs)
            if m == "entry":
                k = self.val(st, args[1])
                outs = [(g, mk("entry", p, k)) for g, p in self.rootplace(st, recv)]
                return st, I.choice(outs)
            if m in ("first", "last", "pop", "pop_first", "pop_last", "get_index", "first_key_value", "last_key_value"):
                return self.first(st, recv, m, span, cl, args)
        if cl == "seq":
            if m in ("push", "push_back", "push_str"):
                self.push(st, recv, args[1], span)
                return st, E.UNIT()
            if m in ("first", "last", "get", "get_mut", "first_mut", "last_mut", "front", "back"):
                outs = []
                for g, p in self.rootplace(st, recv):
                    v = I.load(st, p)
                    if m.startswith("get"):
                        k = self.val(st, args[1])
                        if k.op == "agg":
                            return None
                        h = self.in_bounds(v, k)
                    else:
                        k = E.c(0) if m.startswith(("first", "front")) else mk("lastpos", I.srckey(v))
                        h = BDD.NOT(I.empty(v))
                    outs.append((g, self.opt(h, mk("ref", self.at(p, k)))))
                return st, I.choice(outs)
            if m == "contains":
                v = self.deref1(st, recv)
                k = self.val(st, args[1])
                c = I.as_coll(v) if v.op != "agg" else v
                if c.op == "coll" and c.a[3] is None or c.op != "coll" and c.op != "agg":
                    src = I.srckey(v)
                    lt = mk("loop", src, sum(1 for l, _ in st.loops if l.a[0] is src))
                    return st, E.boolv(I.exists((lt,), I.eqv(mk("elem", lt), k)))
                return st, E.boolv(I.has(v, k))
            if m in ("to_vec", "to_owned", "clone", "into_vec"):
                return st, self.clone(st, self.deref1(st, recv), {"k": "slice"})
            if m in ("pop", "pop_front", "pop_back"):
                return self.first(st, recv, m, span, cl, args)
            if m in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
                     "reverse", "sort_by_cached_key"):
                self.reorder(st, recv, span, m)
                return st, E.UNIT()
            if m in ("dedup", "dedup_by_key", "dedup_by", "truncate", "swap", "remove", "swap_remove", "insert",
                     "split_off", "drain", "rotate_left", "fill", "push_front"):
                k = [self.val(st, a) for a in args[1:]]
                outv = []

                def cb(s, p, old):
                    q = I.event(s, m, I.path_of(s, p), tuple(k), span, old=old)
                    r = I.mget(old, k[0]) if m in ("remove", "swap_remove") else mk("prim", m, I.srckey(old), *k)
                    con = self.distinct(I.as_coll(old)) if m == "dedup" else None
                    return I.bump(old, True, con, (m, None, s.pc), q), r
                return st, self.mutate(st, recv, cb)
            if m in ("eq",):
                return st, E.boolv(I.eqv(self.val(st, recv), self.val(st, args[1])))
            if m in ("concat", "join"):
                return st, mk("prim", m, self.val(st, recv))
            if m in ("windows", "chunks", "rchunks", "chunks_exact"):
                return st, self.it("partial", m, self.mkiter(self.deref1(st, recv), "ref", None, None, cl), tuple(args[1:]))
            if m in ("is_sorted", "starts_with", "ends_with"):
                return st, E.boolv(BDD.atom(mk("prim", m, *[self.val(st, a) for a in args])))
            if m in ("split_first", "split_last"):
                v = self.deref1(st, recv)
                return st, self.opt(BDD.NOT(I.empty(v)), E.tup(self.dref(I.mget(v, E.c(0))), self.dref(mk("prim", m, I.srckey(v)))))
            if m in ("map",):
                v = self.deref1(st, recv)
                if v.op == "agg":
                    outs = []
                    for x in v.a[2]:
                        st, y = I.call_value(st, args[1], [x], span)
                        if st is None:
                            return None, None
                        outs.append(y)
                    return st, E.agg("[]", "", *outs)
        return None

    def reorder(self, st, recv, span, m):
        I = self.I

        def cb(s, p, old):
            c = I.as_coll(old)
            q = I.event(s, "reorder", I.path_of(s, p), (), span, extra=m)
            if m == "reverse":
                if c.a[0] in I.reversed:
                    I.reversed.discard(c.a[0])
                else:
                    I.reversed.add(c.a[0])
            else:
                I.unordered.add(c.a[0])
            return mk("coll", c.a[0], c.a[1], c.a[2], c.a[3]), E.UNIT()
        self.mutate(st, recv, cb)

    def first(self, st, recv, m, span, cl, args):
        I = self.I

        def cb(s, p, old):
            src = I.srckey(old)
            e = I.empty(old)
            el = mk("prim", "peek_" + ("last" if "last" in m or m in ("pop", "pop_back") else "first"), src)
            if cl == "map":
                k, v = mk("field", el, 0), mk("field", el, 1)
                el2 = E.tup(k, v)
            else:
                k = el
                el2 = el
            if m.startswith("pop"):
                q = I.event(s, "rem", I.path_of(s, p), (k,), span, old=old)
                return I.bump(old, True, None, ("pop", None, s.pc), q), self.opt(BDD.NOT(e), el2)
            if cl == "map":
                el2 = E.tup(self.dref(k), self.dref(v))
            else:
                el2 = self.dref(el)
            return None, self.opt(BDD.NOT(e), el2)
        return st, self.mutate(st, recv, cb)

    # entries ----------------------------------------------------------
    def entry(self, m, args, st, span, n, fn, fr):
        I = self.I
        e = args[0]
        if e.op == "ref":
            e = self.deref1(st, e)
        if e.op == "choice":
            outs = []
            for g, x in e.a[0]:
                s = st.copy()
                s.pc = BDD.AND(st.pc, g)
                if s.pc == 0:
                    continue
                s2, v = self.entry(m, [x] + list(args[1:]), s, span, n, fn, fr)
                if s2 is not None:
                    outs.append((s2, v))
            if not outs:
                return None, None
            v = I.joinval([(s.pc, v) for s, v in outs], BDD.OR(*[s.pc for s, _ in outs])) if len(outs) > 1 else outs[0][1]
            return I.join([s for s, _ in outs]), v
        if e.op != "entry":
            return None
        p, k = e.a
        pref = mk("ref", p)
        old = I.load(st, p)
        h = I.has(old, k)
        ref = mk("ref", self.at(p, k))
        if m in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key"):
            hs = BDD.restrict(h, BDD.AND(st.pc, st.assume))
            if BDD.AND(st.pc, st.assume, BDD.NOT(h)) == 0:
                return st, ref
            s1 = st.copy()
            s1.pc = BDD.AND(st.pc, BDD.NOT(h))
            s2 = st.copy()
            s2.pc = BDD.AND(st.pc, h)
            if m == "or_default":
                ty = self.P.ty(fr.crate, fn["a"][-1]) if fn.get("a") else None
                vty = None
                for x in fn.get("a", ()):
                    tx = self.P.ty(fr.crate, x)
                    if tx["k"] not in ("region",):
                        vty = tx
                v = self.default(s1, vty, fr)
            elif m == "or_insert":
                v = args[1]
            else:
                s1, v = I.call_value(s1, args[1], [], span)
                if s1 is None:
                    return s2, ref
            # an ensure is one event: creates k when absent
            old1 = I.load(s1, p)
            c = I.as_coll(old1)
            q = I.event(s1, "ensure", I.path_of(s1, p), (k, self.val(s1, v)), span, old=old1)
            con = None
            if c.a[3] is not None:
                con = c.a[3] + (self.ctr(s1, c, E.tup(k, v)),)
            s1.store = dict(s1.store)
            I.store(s1, p, I.bump(old1, True, con, ("ins", k, s1.pc, v), q), log=False)
            if s2.pc == 0 or BDD.AND(s2.pc, s2.assume) == 0:
                return s1, ref
            return I.join([s1, s2]), ref
        if m == "and_modify":
            def body(s):
                s2, _ = I.call_value(s, args[1], [ref], span)
                return s2, []
            s, _ = self.guarded(st, h, body)
            return s, e
        if m in ("get", "get_mut", "into_mut"):
            return st, ref
        if m == "key":
            return st, self.dref(k)
        if m in ("insert", "insert_entry"):
            r = self.m_insert(st, pref, k, args[1], span)
            if "Vacant" in n or self.P and (fn.get("self") is not None and "Vacant" in self.P.ty(fr.crate, fn["self"])["s"]):
                return st, ref
            return st, I.project(r, mk(".v", "Some", 0)) if r.op in ("agg", "choice") else r
        if m in ("remove", "swap_remove", "shift_remove"):
            r = self.remove(st, pref, k, span, "val")
            return st, I.project(r, mk(".v", "Some", 0))
        if m in ("remove_entry", "swap_remove_entry"):
            r = self.remove(st, pref, k, span, "val")
            return st, E.tup(k, I.project(r, mk(".v", "Some", 0)))
        return None

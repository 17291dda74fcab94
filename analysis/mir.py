"""Loader for the JSON dumps of the driver: bodies, items, types, impl table, loop structure."""
import json
import os


class Body:
    def __init__(self, crate, item, js, foreign, promoted):
        self.crate = crate
        self.item = item
        self.key = item["d"]
        self.name = item["n"]
        self.js = js
        self.foreign = foreign
        self.promoted = promoted
        self.argc = js["argc"]
        self.blocks = js["blocks"]
        self.locals = js["locals"]
        self._cfg = None

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["o"]]
    if k in ("drop", "assert"):
        return [t["t"]]
    if k == "call":
        return [] if t["t"] is None else [t["t"]]
    return []


class CFG:
    def __init__(self, body):
        B = body.blocks
        n = len(B)
        self.succ = [succs(b["t"]) for b in B]
        # unreachable blocks are not successors worth following
        dead = {i for i in range(n) if B[i]["t"]["k"] == "unreachable"}
        self.dead = dead
        self.succ = [[s for s in x if s not in dead] for x in self.succ]
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(self.succ[v])))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(0)
        order.reverse()
        self.rpo = order
        self.idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for u in order:
            for v in self.succ[u]:
                preds[v].append(u)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.idx[x] > self.idx[y]:
                            x = idom[x]
                        while self.idx[y] > self.idx[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for u in order:
            for v in self.succ[u]:
                if self.dom(v, u):
                    blk = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in blk:
                            blk.add(x)
                            st.extend(preds[x])
        # blocks from which a return is reachable
        self.returns = set()
        st = [b for b in order if B[b]["t"]["k"] == "return"]
        while st:
            x = st.pop()
            if x not in self.returns:
                self.returns.add(x)
                st.extend(preds[x])

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


class Program:
    def __init__(self, paths):
        self.bodies = {}
        self.adts = {}
        self.impls = {}
        self.impl_list = []
        self.assoc = {}
        self.trait_defaults = {}
        self.trait_items = {}
        self.types = {}
        self.crates = []
        self.statics = []
        for p in paths:
            js = json.load(open(p))
            c = js["crate"]
            self.crates.append(c)
            self.types[c] = js["types"]
            for b in js["bodies"]:
                bd = Body(c, b["item"], b["body"], b.get("foreign", False), b["promoted"])
                if bd.key in self.bodies and bd.foreign:
                    continue
                self.bodies[bd.key] = bd
                if not bd.foreign and b["item"].get("in_trait") and b["item"]["kind"] == "AssocFn":
                    self.trait_defaults[(b["item"]["in_trait"], b["item"]["m"])] = bd.key
            for a in js["adts"]:
                a["crate"] = c
                self.adts[a["n"]] = a
            for i in js["impls"]:
                st = js["types"][i["self"]]
                i["crate"] = c
                i["selfty"] = st
                self.impl_list.append(i)
                if i["trait"]:
                    n = st.get("n") or st["s"]
                    self.impls[(i["trait"], n)] = {x["n"]: x["d"] for x in i["items"]}
                    if i.get("assoc"):
                        ts = js["types"]
                        self.assoc[(i["trait"], n)] = {a: (ts[b].get("n") or ts[b]["s"]) for a, b in i["assoc"]}
            for t in js["traits"]:
                self.trait_items[t["n"]] = t
            for s in js["statics"]:
                s["crate"] = c
                self.statics.append(s)

    def ty(self, crate, i):
        return self.types[crate][i]

    def find(self, suffix, crate=None, **kw):
        """bodies whose qualified name ends with suffix"""
        out = []
        for b in self.bodies.values():
            if b.foreign or (crate and b.crate != crate):
                continue
            if b.name == suffix or b.name.endswith("::" + suffix):
                out.append(b)
        return out

    def method(self, selfname, m, trait=None, crate=None):
        """inherent (trait=None) or trait method of a local type, by the last segment of the type name"""
        out = []
        for b in self.bodies.values():
            it = b.item
            if b.foreign or it.get("m") != m or "impl_self" not in it or it["kind"] != "AssocFn":
                continue
            if crate and b.crate != crate:
                continue
            st = self.ty(b.crate, it["impl_self"])
            if st["k"] == "ref":
                continue
            n = (st.get("n") or st["s"]).split("::")[-1]
            if n != selfname:
                continue
            tr = it.get("impl_trait")
            if (trait is None) != (tr is None):
                continue
            if trait and tr.split("::")[-1] != trait:
                continue
            out.append(b)
        return out

    def default_method(self, trait, m):
        for (t, n), k in self.trait_defaults.items():
            if n == m and t.split("::")[-1] == trait:
                return self.bodies[k]
        return None

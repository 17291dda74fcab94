"""Registry: property id -> rule, and what each rule does (goes into the evidence)."""
import graphspec as G
import genspec as W
import arenaspec as A
import transspec as X
import macspec as M
import idspec as D
import switchspec as Z
import serspec as R
import featspec as F
import pubspec as U
import refspec as K
import selfspec as Y
import printspec as PF

RULES = {
    "C01": D.c01,
    "C02": U.c02,
    "C03": G.c03,
    "C04": X.c04,
    "C05": X.c05,
    "C06": G.c06,
    "C07": G.c07,
    "C08": G.c08,
    "C09": G.c09,
    "C10": G.c10,
    "C11": G.c11,
    "C12": G.c12,
    "C13": W.c13,
    "C14": W.c14,
    "C15": W.c15,
    "C16": A.c16,
    "C17": A.c17,
    "C18": R.c18,
    "C19": Z.c19,
    "C20": W.c20,
    "C21": M.c21,
    "C22": W.c22,
    "C23": F.c23,
    "C26": K.c26,
    "C27": Y.c27,
    "C28": PF.c28,
}

# What a property rests on besides its own rule: obligations of other rules without which it cannot hold.
# A graph-level guarantee needs the generated listing and editing of links to be right, the maintenance of
# bidirectional links needs the declared opposites, and so on.
_EDIT = ("modify_link", "add_link", "remove_link")
RESTS_ON = {
    "C03": [("C05", ("pending-nodes-are-changed-at-once-others-deferred", "redirects-only-record", "insertion-makes-the-node-pending",
                     "filling-makes-the-node-pending"))],
    "C06": [("C13", ("iter_sources",)), ("C14", _EDIT), ("C15", ("iter_sources", "conversion") + _EDIT)],
    "C07": [("C13", ("iter_sources",)), ("C14", ("modify_link",)), ("C15", ("iter_sources", "modify_link")), ("C06", None)],
    "C08": [("C13", ("iter_sources",)), ("C14", ("modify_link",)), ("C15", ("iter_sources", "modify_link")), ("C06", None)],
    "C09": [("C14", ("add_link", "remove_link", "contains_link")), ("C15", ("add_link", "remove_link", "contains_link", "match_bd_link_group", "check_link")),
            ("C22", ("opposites", "opposites of a group", "links of a group", "all opposites", "groups of a link")), ("C10", None)],
    "C10": [("C13", ("iter_sources",)), ("C14", _EDIT), ("C15", ("iter_sources", "conversion") + _EDIT)],
    "C11": [("C22", ("link types", "groups of a link")), ("C13", ("to_link_or_groups",)), ("C10", None)],
    "C12": [("C10", None)],
    "C15": [("C22", ("links of a group", "groups of a link"))],
    "C17": [("C15", ("in_group", "discriminant", "discriminant order"))],
    "C18": [("C13", ("iter_sources",)), ("C15", ("iter_sources",))],
    "C19": [("C01", ("everything-in-a-context-uses-its-counter", "every-new-node-gets-a-new-index")), ("C13", ("iter_sources",)), ("C14", ("modify_link",)), ("C15", ("iter_sources", "modify_link"))],
    "C22": [("C15", ("in_group",))],
    "C27": [("C13", ("iter_sources",)), ("C15", ("iter_sources",))],
}


def decide(ctx, pid, rep, spec):
    """the property's own rule, then the obligations it rests on"""
    cache = ctx.__dict__.setdefault("rule_cache", {})

    def own(p):
        if p not in cache:
            r = spec.Report(p)
            try:
                RULES[p](ctx, r)
            except Exception as e:
                import build
                import os
                if isinstance(e, build.BuildError) or os.environ.get("TTG_DEBUG"):
                    raise
                import traceback
                r.und("internal", p, traceback.format_exc()[-1500:])
                print(f"{p}: not understood: {e!r}")
            cache[p] = r
        return cache[p]
    r = own(pid)
    rep.obls += r.obls
    for p, only in [(None, None)] + RESTS_ON.get(pid, []):
        if p:
            q = own(p)
            for o in q.obls:
                if only is None or o.rule in only:
                    rep.obls.append(spec.Obl(f"{p}/{o.rule}", o.where, o.status, o.msg))
            r = q
        rep.functions |= r.functions
        rep.calls += r.calls
        rep.events += r.events
        rep.notes += [n for n in r.notes if n not in rep.notes]


_G = "guarded-effect analysis (path-sensitive abstract interpretation of MIR, BDD guards) of every function that changes or builds a graph: "

EXPLAIN = {
    "C03": _G + "every recorded operation has exactly one effect under a complete in-order loop, phases are ordered, nothing else changes nodes; is_empty is compared with emptiness of all pending fields",
    "C06": _G + "every link change of a stored node (insertion, callback, edit, removal) must be paired with the exact update of the reverse index and vice versa",
    "C07": _G + "every removal of a node is accompanied by emptying exactly the links listed for it in the reverse index",
    "C08": _G + "every link to a redirected node moves to the end of its replacement chain; circles panic before anything moves; the two redirect phases sit on the right side of the insertions",
    "C09": _G + "the opposites of exactly the removed links are removed, then the opposites of exactly the added links completed, with the ambiguity panic",
    "C10": _G + "every link change is recorded in the added/removed sets with cancellation, nothing else is",
    "C11": _G + "every added link whose target is present goes through check_link_type after the last change, which covers all groups of the link",
    "C12": _G + "commit_checked makes the changes of commit, runs every registered check on its whole domain after the last change, and panics exactly if one failed",
}

_W = "guarded-effect analysis of the MIR of the code the macros generate for witness declarations, node contents symbolic, identifiers and names enumerated: "

EXPLAIN.update({
    "C13": _W + "every listing (by position, link, name, group) is compared element by element, with guards, with what the declaration says; the static lists are compared entry by entry",
    "C14": _W + "final content of every field and the reported flags of modify_link, add_link, remove_link and contains_link are compared with the declared kind of the link; panics are compared with the documented ones",
    "C15": _W + "every operation of the node enum is read for every variant and every identifier and compared with the field-level meaning; conversions, discriminants and groups are compared by enumeration",
    "C20": _W + "the reference returned for each name, the type test guarding it and the list of names are compared with the declared fields",
    "C22": _W + "opposites, group expansion and link type tables are enumerated for every variant, link, group and target type and compared with the product the declarations mean",
})

_S = "guarded-effect analysis of the MIR of the generated per-type store, run once for every state an index can be in (unknown, allocated, holding each variant): "

EXPLAIN.update({
    "C16": _S + "after every operation the dispatch table and the category of every variant are compared, for the touched and for an arbitrary other index, with the store the operation should leave; lookups, counts and merging likewise",
    "C17": _S + "every iterator of the store and the graph is unrolled as guarded yields and compared with one yield per stored node, paired with its own index; size hints are compared with the number of remaining elements",
})

EXPLAIN.update({
    "C04": _G + "every change of the graph is dominated by the context and allocation tests, misused indices panic in every state of an index, before the effect, with debug assertions compiled out; correct use meets no such panic, and recording an operation meets none at all",
    "C05": "guarded-effect analysis of the MIR of every recording method of Transaction: what is pending, allocated, deferred and removed afterwards is compared, for the index and for an arbitrary other one, with the meaning of the operation; nothing else may change",
})

EXPLAIN.update({
    "C01": "guarded-effect analysis of the MIR of the index source, the contexts and every place that builds a store: indices are (value before one atomic step) + constant on a counter shared by all clones, the first index is not the empty one, every store of a context uses its counter, rebuilt contexts start at the maximum over all loaded indices, both constructors draw a fresh identity",
    "C21": "every form of every macro is expanded in witness functions (several path spellings); the MIR of the expansion is analysed once per type the node may have and compared with the documented meaning",
})

EXPLAIN.update({
    "C19": "guarded-effect analysis of the MIR of switch_context, Transaction::merge and the generated store merges: one fresh index per node, every (source, position, target) of the reverse index edited exactly once to empty and exactly once to the new target, all removals before all additions, the rewritten nodes being the result",
})

EXPLAIN.update({
    "C18": "guarded-effect analysis of the MIR of both serialisations, of the derived deserialisation and of deserialize_graph: the fields written, their order, names and announced lengths, one element per stored node, the names and order read back, every pair rebuilt under its index, identity kept, reverse and bidirectional links as in C06 and C09",
    "C23": "the crate is built and analysed once with and once without its feature: the guarded effects of commit, switch_context and deserialize_graph are compared with each other, and whatever the rules of C03 to C10 and C19 find only without the feature is reported",
})

EXPLAIN["C02"] = ("visibility, signature and effect analysis of every exported function that can reach a graph: the fields holding nodes are private, no returned type carries a mutable "
                  "reference or mutable iterator into a graph, functions with a mutable graph and no transaction have no effect on it (MIR effects), no interior mutability or pointer cast "
                  "lets a shared graph change, the fields of Transaction hold no graph or reference to nodes")

TECH = {p: "abstract interpretation of MIR: guarded effects matched against the specification" for p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C18", "C19", "C23")}

TECH.update({p: "abstract interpretation of the MIR of macro-generated code, compared with the meaning of the declarations" for p in ("C13", "C14", "C15", "C16", "C17", "C20", "C21", "C22")})

TECH["C02"] = "visibility and signature analysis of the exported items plus MIR effects of functions taking a graph"

EXPLAIN["C26"] = ("compile-fail witnesses: for every name and shape a declaration or macro use can get wrong, a program that differs from an accepted one in that place only is given "
                  "to the compiler, which must refuse it; nothing is run")
TECH["C26"] = "compile-fail witness programs built against the current tree"

EXPLAIN["C27"] = ("guarded-effect analysis of the MIR of check_integrity and check_backlinks, compiled with debug assertions: the conditions under which they panic, the loops they sit in and the "
                  "expected index they build are compared with the documented meaning, with the different ways to compare two sets reduced to inclusion, on any graph, consistent or not")
TECH["C27"] = "abstract interpretation of MIR: guarded panics matched against the specification"
EXPLAIN["C28"] = ("guarded-effect analysis of the MIR of the Display and Debug implementations of Graph, of Debug of Transaction and of Display of NodeIndex: what each call of the formatter is given, in "
                 "which loop and under which condition; matched against the parts of the graph, of the transaction and of the index, and against the condition under which the result is Ok")
TECH["C28"] = "abstract interpretation of MIR: guarded output effects matched against the specification"

NOT_APPLICABLE = {
    "C24": "absence of panics for well-formed transactions depends on which indices exist at run time along whole histories; no sound static bound in reach separates the intended panics from wrong ones",
    "C25": "the data round trip runs through serde implementations of user types and formats, which are outside this code base",
}

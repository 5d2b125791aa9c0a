"""Rules about the nested tree (paths of keys over the certified tree) and about merging witnesses."""

import re

from fw import *
from rules_http import by_self

IC = "ic_certification"
OPS = ("get", "contains_leaf", "contains_path", "insert", "delete", "witness")


def alternatives(t):
    """(facts, value) of every way in which a value comes about."""
    for g, x in (t.a[0] if t.op == "phi" else [(frozenset(), t)]):
        for d in dnf(g):
            if x.op == "phi":
                yield from ((d | d2, y) for d2, y in alternatives(x) if consistent(d, d2))
            else:
                yield d, x


class Tree:
    def __init__(self, c):
        self.c = c
        self.ops = {n: by_self(c, IC, n, "NestedTree") for n in OPS}
        rb = {f["id"] for n in ("get", "modify", "insert", "delete", "is_empty", "nested_witness", "as_hash_tree", "root_hash")
              for f in c.fns(IC, n) if "RbTree" in (f["self"] or "") and "Nested" not in (f["self"] or "").split("<")[0]}
        mine = {f["id"] for f in self.ops.values()}
        for n in ("as_hash_tree", "root_hash"):
            mine |= {f["id"] for f in c.fns(IC, n) if (f["self"] or "").split("<")[0].endswith("NestedTree")}
        self.bound = lambda f: f["id"] in rb or f["id"] in mine

        self.cur = []

    def run(self, fn, **kw):
        TM.LV.clear()
        self.cur = []
        r = self.c.run(fn, self.bound, **kw)
        for lv, ways in TM.LV.items():
            s = show(lv)
            if sorted(show(x) for x in ways) == sorted(["$self", f"RbTree::get({s}~Nested.0, each($path))~Some.0"]):
                self.cur.append(s)
        return r

    def clo(self, x):
        """A closure as what it does to what it is given."""
        f = self.c.prog.fns[x.a[0]]
        ch = mk("param", "", "child", 2)
        r = self.c.run(f, self.bound, args=[x, ch])
        m = r.mem.get(("obj", ch), ch)
        return mk("abbr", "{" + self.text(m if m is not ch else r.ret) + "}")

    def text(self, t, case=None):
        """What a term says, in a case: SELF's level TREE, the first KEY of the path and the REST."""
        def f(x):
            if x.op == "clo":
                return self.clo(x)
            if x.op == "upd" and tuple(x.a[1]) == ("Nested", "0"):
                return mk("abbr", f"Nested({show(x.a[2])})")
            if x.op == "adt" and x.a[1] in ("Nested", "Leaf") and x.a[0].endswith("NestedTree"):
                return mk("abbr", f"{x.a[1]}({', '.join(show(y) for y in x.a[3])})")
            if x.op == "phi" and case:
                keep = [y for g, y in x.a[0] if any(all(truth(self.plain(k), case) in (None, v) for k, v in d) for d in dnf(g))]
                if len(set(keep)) == 1:
                    return keep[0]
            return x
        return self.plain(rewrite(t, f, {}))

    def plain(self, t):
        s = t if isinstance(t, str) else show(t)
        for x in self.cur:   # the node that a loop has come to
            s = s.replace(x, "$self")
        if self.cur:
            s = s.replace("each($path)", "$path[0]")
        for x, y in (("slice($path, RangeFrom(start: 1))", "REST"), ("subslice($path, 1, 0, True)", "REST"), ("$path[0]", "KEY"),
                     ("$self~Nested.0", "TREE"), ("RbTree(root: None)", "NEW"), ("NestedTree::", ""), ("RbTree::", "")):
            s = s.replace(x, y)
        return s


GET = "get(TREE, KEY)"


def truth(k, case):
    """Whether a condition holds in the case (path empty, leaf, child there); None where the case does not say."""
    if k in ("Nested(NEW) is Nested",) or k.startswith("Nested(insert!0(TREE, KEY, ") and k.endswith(") is Nested"):
        return True
    if k in ("eq(0, len($path))", "lt(len($path), 1)"):
        return case["path"] == "empty"
    if k in ("lt(0, len($path))", "next($path) is Some"):
        return case["path"] != "empty"
    if k == "$self is Leaf":
        return case["node"] == "leaf"
    if k == "$self is Nested":
        return case["node"] != "leaf"
    if k in (GET + " is Some",):
        return case["child"] == "there"
    return None


CASES = [dict(path="empty", node="leaf", child=None), dict(path="empty", node="tree", child=None), dict(path="key", node="leaf", child=None),
         dict(path="key", node="tree", child="there"), dict(path="key", node="tree", child="absent")]


def decide(c, rule, T, fn, value, expect):
    """Each case gives one of the expected values; where these depend on more, expect is given the remaining facts."""
    alts_ = list(alternatives(value))
    for case in CASES:
        got = {}
        for d, x in alts_:
            free = set()
            for k, v in d:
                k = T.text(k, case)
                q = truth(k, case)
                if q is None:
                    if not (T.cur and v and k.startswith("all(")):   # what held on the way
                        free.add(("" if v else "!") + k)
                elif q != v:
                    break
            else:
                got.setdefault(T.text(x, case), []).append(free)
        bad = sorted(f"{x} if {sorted(fr)[:4]}" for x, frs in got.items() for fr in frs if not expect(case, x, fr))
        by_get = "get($self, $path) is Some"   # what get says, which is judged itself
        if fn["name"] == "contains_leaf" and {(x, *fr) for x, frs in got.items() for fr in frs} in (
                {("True", by_get), ("False", "!" + by_get)}, {(by_get,)}):
            bad = []
        if T.cur and not got and case["child"] == "there":
            got = {"the loop goes on": []}
        label = f"{fn['name']}: path {case['path']}, node {case['node']}" + (f", child {case['child']}" if case["child"] else "")
        c.ob(rule, label, got and not bad, fn, "; ".join(bad)[:900] or "no way out covers the case")


def c36(c):
    T = Tree(c)
    c.rule("nested-paths", "get, contains_leaf and contains_path follow the path key by key through the tree at each level; insert puts the "
                           "value at the path and leaves everything else; delete removes it and the levels that are left empty (by induction on "
                           "the path: what a call for the rest of the path does is what the rule says; the tree at one level is a map, C20)")
    there = GET + "~Some.0"
    mod = "modify!0(TREE, KEY, {delete!0($child, REST)})"
    gm = f"get({mod}, KEY)"

    def reads(at_leaf, at_tree, rec, no):
        def e(case, x, fr):
            if fr:
                return False
            if case["path"] == "empty":
                return x in (at_leaf if case["node"] == "leaf" else at_tree)
            return x in (rec if case["child"] == "there" else no)
        return e

    yes, no = ("True", "$self is Leaf"), ("False", "$self is Leaf")
    spec = {
        "get": reads(("Some($self~Leaf.0)",), ("None",), (f"get({there}, REST)",), ("None",)),
        "contains_leaf": reads(yes, no, (f"contains_leaf({there}, REST)", f"get({there}, REST) is Some"), ("False",)),
        "contains_path": reads(("True",), ("True",), (f"contains_path({there}, REST)",), ("False",)),
    }

    def insert(case, x, fr):
        if fr:
            return False
        if case["path"] == "empty":
            return x == "Leaf($value)"
        if case["node"] == "leaf":
            return x in ("insert!0(Nested(NEW), $path, $value)", "Nested(insert!0(NEW, KEY, insert!0(Nested(NEW), REST, $value)))")
        if case["child"] == "there":
            return x in ("Nested(modify!0(TREE, KEY, {insert!0($child, REST, $value)}))", f"Nested(insert!0(TREE, KEY, insert!0({there}, REST, $value)))")
        return x in ("insert!0(Nested(insert!0(TREE, KEY, Nested(NEW))), $path, $value)",
                     "Nested(insert!0(TREE, KEY, insert!0(Nested(NEW), REST, $value)))",
                     "Nested(modify!0(insert!0(TREE, KEY, Nested(NEW)), KEY, {insert!0($child, REST, $value)}))")

    def delete(case, x, fr):
        if case["path"] == "empty":
            return x == "Nested(NEW)" and not fr
        if case["node"] == "leaf":
            return x == "$self" and not fr
        if x == "$self":
            return case["child"] == "absent"
        if x == f"Nested({mod})":
            return bool(fr & {f"!{gm} is Some", f"{gm}~Some.0 is Leaf", f"!{gm}~Some.0 is Nested", f"!is_empty({gm}~Some.0~Nested.0)"})
        return x == f"Nested(delete!0({mod}, KEY))" and fr >= {f"{gm}~Some.0 is Nested", f"is_empty({gm}~Some.0~Nested.0)"}
    spec["insert"], spec["delete"] = insert, delete

    def witness(case, x, fr):
        if fr:
            return False
        if case["path"] == "empty":
            return x in (whole | ({"AsHashTree::as_hash_tree($self~Leaf.0)"} if case["node"] == "leaf" else {"as_hash_tree(TREE)"}))
        if case["node"] == "leaf":
            return x == "AsHashTree::as_hash_tree($self~Leaf.0)" or x in whole
        return x == "nested_witness(TREE, KEY, {witness($child, REST)})"
    whole = {"ic_certification::as_hash_tree($self)", "as_hash_tree($self)"}
    spec["witness"] = witness
    c.rule("nested-witness", "the witness of a path shows the whole node at its end and, at each level, what the level's witness shows of the key, "
                             "with the child's witness of the rest of the path; a node's hash and its full tree are those of its value or its level")
    for n in OPS:
        r = T.run(T.ops[n])
        v = next((v for k, v in r.mem.items() if k[0] == "obj" and show(k[1]) == "$self"), None) if n in ("insert", "delete") else r.ret
        if v is None:
            raise Anchor(f"NestedTree::{n} changes nothing")
        decide(c, "nested-witness" if n == "witness" else "nested-paths", T, T.ops[n], v, spec[n])
    for n in ("root_hash", "as_hash_tree"):
        f = by_self(c, IC, n, "NestedTree")
        r = T.run(f)
        for kind, want in (("Leaf", f"AsHashTree::{n}($self~Leaf.0)"), ("Nested", f"{n}(TREE)")):
            got = {T.text(x) for d, x in alternatives(r.ret) if not any(
                show(k) == f"$self is {kind}" and not v or show(k).startswith("$self is ") and show(k) != f"$self is {kind}" and v for k, v in d)}
            got = {x.replace("ic_certification::", "") for x in got}
            c.ob("nested-witness", f"{n} of {kind}", got == {want}, f, f"it is {sorted(got)}, not {want}"[:600])


# ---------------------------------------------------------------- merging witnesses
KINDS = ("Empty", "Fork", "Labeled", "Leaf", "Pruned")


def c37(c):
    c.rule("merge", "merging two views of a tree takes at each node what is shown by either: a pruned node gives way to the other view, "
                    "forks and labelled nodes are merged part by part, leaves, labels and hidden hashes must be equal; different kinds of nodes "
                    "are never merged (but an empty tree gives way)")
    fn = c.fn(IC, "merge_hash_trees")
    nodes = {f["id"] for f in c.prog.fns.values() if f["crate"] == IC and f["kind"] != "Closure" and f["args"] == 2 and
             all(re.search(r"HashTreeNode(<|$)", t[0]) and "(" not in t[0] for t in f["locals"][:3])}
    r = c.run(fn, lambda f: f["id"] in nodes, names=["l", "r"])
    a, b = "$l.root", "$r.root"
    call = None
    # a function over the nodes themselves may do the work
    for t in t_all(r.ret):
        if t.op == "call" and len(t.a[1]) == 2 and [show(x) for x in t.a[1]] == [a, b]:
            g = [f for f in c.prog.fns.values() if t.a[0] in (f["npath"], f["path"])]
            if len(g) == 1:
                c.ob("merge", "the function is the one over nodes", show(r.ret) == f"HashTree(root: {show(t)})", fn, show(r.ret)[:300])
                fn = g[0]
                r = c.run(fn, names=["l", "r"])
                a, b, call = "$l", "$r", show(t).split("(")[0]
                break

    def wrap(x):
        return x if call else f"HashTree(root: {x})"

    def merged(k, part):
        x, y = wrap(f"{a}~{k}.{part}"), wrap(f"{b}~{k}.{part}")
        n = call or "nested_rb_tree::merge_hash_trees"
        return {(f"{n}({p}, {q})" if call else f"{n}({p}, {q}).root") for p, q in ((x, y), (y, x))}

    def want(l, rr, same):
        if l == "Pruned" and rr == "Pruned":
            return {a, b, f"HashTreeNode::Pruned({a}~Pruned.0)", f"HashTreeNode::Pruned({b}~Pruned.0)"} if same else None
        if l == "Pruned":
            return {b}
        if rr == "Pruned":
            return {a}
        if l != rr:
            return {b} if l == "Empty" else {a} if rr == "Empty" else None
        if l == "Empty":
            return {"HashTreeNode::Empty", a, b}
        if l == "Fork":
            return {f"HashTreeNode::Fork(({x}, {y}))" for x in merged("Fork", "0.0") for y in merged("Fork", "0.1")}
        if not same:
            return None
        if l == "Leaf":
            return {a, b, f"HashTreeNode::Leaf({a}~Leaf.0)", f"HashTreeNode::Leaf({b}~Leaf.0)"}
        return {f"HashTreeNode::Labeled({z}~Labeled.0, {x})" for z in (a, b) for x in merged("Labeled", "1")}

    alts_ = [(frozenset((show(k), v) for k, v in d | d2), show(y)) for d, x in alternatives(r.ret)
             for d2, y in alternatives(x if call else field(x, "root")) if consistent(d, d2)]
    n = 0
    for l in KINDS:
        for rr in KINDS:
            for same in ((True, False) if l == rr and l in ("Pruned", "Leaf", "Labeled") else (True,)):
                eq = {f"eq({x}~{l}.0, {y}~{l}.0)" for x, y in ((a, b), (b, a))}
                got, free = set(), set()
                for d, x in alts_:
                    fr = set()
                    for k, v in d:
                        m = k.rsplit(" is ", 1)
                        q = (m[1] == (l if m[0] == a else rr)) if len(m) == 2 and m[0] in (a, b) else same if k in eq and l == rr else None
                        if q is None and k.startswith("eq(") and l == rr and not any(f"~{o}." in k for o in KINDS if o != l):
                            fr.add(("" if v else "!") + k)
                        elif q is None and any(f"{s}~{o}." in k for s, kk in ((a, l), (b, rr)) for o in KINDS if o != kk):
                            pass   # about what this kind of node does not have
                        elif q is None:
                            fr.add(("" if v else "!") + k)
                        elif q != v:
                            break
                    else:
                        got.add(x)
                        free |= fr
                w = want(l, rr, same)
                ok = not got if w is None else bool(got) and got <= w and not free
                if w is None and l != rr and "Empty" in (l, rr):
                    ok = True
                n += 1
                label = f"{l} with {rr}" + ("" if same else ", which differ") 
                c.ob("merge", label, ok, fn, f"the result is {sorted(got)}"[:700] + (f" if {sorted(free)}"[:200] if free else "") +
                     ("; it must not be made" if w is None else f"; it must be {sorted(w)[0]}"))
    c.count("merge", "pairs of nodes", n, 28, fn)


RULES = {"C36": c36, "C37": c37}

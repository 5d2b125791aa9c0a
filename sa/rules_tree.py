"""Rules about hash trees as data: lookups, wire codecs."""

import itertools

from fw import *
from rules_hash import unq

IC, CB = "ic_certification", "ic_cbor"


# ---------------------------------------------------------------- decision tables
def cases(**doms):
    ks = list(doms)
    for vals in itertools.product(*[doms[k] for k in ks]):
        yield dict(zip(ks, vals))


def table(c, rule, fn, r, doms, given, fact, value, expect, sh=lambda x: unq(show(x)), goes_on=()):
    """Every exit, under every case its facts allow, gives the expected value; every case has an exit (unless what is
    expected is one of `goes_on`: a loop does it).
    `fact(text, case)` is the truth of a condition in the case, None when the case does not settle it."""
    ex = by_variant(r)
    memo = {}
    texts = [([(sh(k), v) for k, v in d], sh(t)) for d, t in ex]
    for case in cases(**doms):
        if not given(case):
            continue
        label = ", ".join(f"{k}={v}" for k, v in case.items())
        got = {}
        for d, t in texts:
            free = []
            for k, v in d:
                q = memo.get((k, tuple(case.items())))
                if q is None:
                    q = memo[(k, tuple(case.items()))] = (fact(k, case),)
                if q[0] is None:
                    free.append(("" if v else "!") + k)
                elif q[0] != v:
                    break
            else:
                got.setdefault(value(t, case), free)
        want = expect(case)
        if not got and want in goes_on:
            got = {want: []}
        bad = {k: f for k, f in got.items() if k != want}
        det = f"in the case {label} the result must be {want}; it is " + "; ".join(
            f"{k}" + (f" (when {', '.join(f)[:200]})" if f else "") for k, f in bad.items()) if bad or not got else ""
        c.ob(rule, label, got and not bad, fn, det or f"no exit covers {label}")


LK = ("Absent", "Unknown", "Found", "Less", "Greater")
NODE = ("Empty", "Fork", "Labeled", "Leaf", "Pruned")


def node_fns(c, name):
    return [f for f in c.fns(IC, name) if f.get("self") and "HashTreeNode" in str(f["self"])]


def c12(c):
    c.rule("lookup-label", "looking one label up in a node: found where the node carries that label, less or greater as the label "
                           "compares, unknown for a pruned node, absent for an empty node or a leaf; a fork combines its children "
                           "so that absence is reported only when the neighbours prove it")
    ll = node_fns(c, "lookup_label")
    if len(ll) != 1:
        raise Anchor(f"HashTreeNode::lookup_label: found {len(ll)}")
    ll = ll[0]
    preds = [f for f in c.prog.fns.values() if f["crate"] == IC and f["kind"] != "Closure" and f["args"] == 1
             and f["locals"][0][0] == "bool" and "HashTreeNode" in f["locals"][1][0]]
    pn = {f["name"] for f in preds}
    ids = {f["id"] for f in preds}
    for f in preds:
        r = c.run(f, names=["t"])

        def pf(k, s_, n=f["name"]):
            m = re.fullmatch(r"\$t is (\w+)", k)
            if m:
                return s_["node"] == m[1]
            if k in (f"{n}($t~Fork.0.0)", f"{n}($t~Fork.0.1)"):
                return s_["left" if k.endswith("0.0)") else "right"]
            return None

        def pv(t, s_, n=f["name"]):
            x = pf(t, s_, n)
            return t == "True" if t in ("True", "False") else t if x is None else x
        c.rule("empty-node", "a subtree counts as empty only when nothing in it carries a label or hides one")
        table(c, "empty-node", f, r, {"node": NODE, "left": (True, False), "right": (True, False)},
              lambda s_: s_["node"] == "Fork" or not (s_["left"] or s_["right"]), pf, pv,
              lambda s_: s_["node"] == "Empty" or s_["node"] == "Fork" and s_["left"] and s_["right"])
    r = c.run(ll, lambda f: f["id"] in ids, names=["t", "label"])
    L, R = "lookup_label($t~Fork.0.0, $label)", "lookup_label($t~Fork.0.1, $label)"

    def rd(x):
        for w in ("$label~Label.0", "as_ref($label)", "as_bytes($label)"):
            x = x.replace(w, "$label")
        return x.replace("$t~Labeled.0.0", "NODE").replace("$t~Labeled.0", "NODE")

    def sh(t):
        return rd(unq(show(t)))

    def fact(k, s_):
        m = re.fullmatch(r"\$t is (\w+)", k)
        if m:
            return s_["node"] == m[1]
        for q, n in ((L, "left"), (R, "right")):
            if k.startswith(q + " is "):
                return s_[n] == k.rsplit(" ", 1)[1]
        for p in pn:
            if k == f"{p}($t~Fork.0.0)":
                return s_["left_empty"]
            if k == f"{p}($t~Fork.0.1)":
                return s_["right_empty"]
        m = re.fullmatch(r"\$t~Fork\.0\.([01]) is (\w+)", k)
        if m:
            e = s_["left_empty" if m[1] == "0" else "right_empty"]
            return None if m[2] == "Fork" or not e and m[2] != "Empty" else (False if not e else None if m[2] == "Empty" else False)
        for q, n in (("eq($label, NODE)", "="), ("eq(NODE, $label)", "="), ("lt($label, NODE)", "<"), ("lt(NODE, $label)", ">")):
            if k == q:
                return s_["label"] == n
        return None

    def value(t, s_):
        if t == L:
            return s_["left"]
        if t == R:
            return s_["right"]
        m = re.fullmatch(r"(?:\w+::)*(Absent|Unknown|Less|Greater)", t)
        if m:
            return m[1]
        m = re.fullmatch(r"(?:\w+::)*Found\((.*)\)", t)
        if m:
            if s_["node"] == "Labeled":
                return "Found" if m[1] == "$t~Labeled.1" else t[:200]
            if m[1] == L + "~Found.0" and s_["left"] == "Found" or m[1] == R + "~Found.0" and s_["right"] == "Found":
                return "Found"
        return t[:200]

    def given(s_):
        if s_["node"] != "Fork" and (s_["left"], s_["right"], s_["left_empty"], s_["right_empty"]) != ("Absent", "Absent", False, False):
            return False
        if s_["node"] != "Labeled" and s_["label"] != "=":
            return False
        return not (s_["left_empty"] and s_["left"] != "Absent" or s_["right_empty"] and s_["right"] != "Absent")

    def expect(s_):
        n = s_["node"]
        if n == "Labeled":
            return {"<": "Less", "=": "Found", ">": "Greater"}[s_["label"]]
        if n == "Pruned":
            return "Unknown"
        if n != "Fork":
            return "Absent"
        l, q = s_["left"], s_["right"]
        if s_["left_empty"]:
            return q
        if s_["right_empty"]:
            return l
        if l == "Greater":
            return "Absent" if q == "Less" else q
        if l == "Unknown":
            return "Unknown" if q == "Less" else q
        return l
    table(c, "lookup-label", ll, r, {"node": NODE, "label": ("<", "=", ">"), "left": LK, "right": LK,
                                     "left_empty": (False, True), "right_empty": (False, True)}, given, fact, value, expect, sh)
    # whole paths
    c.rule("lookup-path", "looking a path up descends with its first label and goes on in the child with the rest; unknown where "
                          "the label is unknown, absent where it is absent; the end of the path gives the leaf's value, absence of "
                          "an empty node, unknown for a pruned one, and an error for an inner node")
    c.rule("lookup-subtree", "looking a subtree up descends like a path lookup and ends with the node itself")
    for name, rule in (("lookup_path", "lookup-path"), ("lookup_subtree", "lookup-subtree")):
        fs = c.fns(IC, name, pred=lambda f: f.get("self") and "HashTree" in str(f["self"]))
        c.count(rule, f"{name} functions", len(fs), 1, ll)
        for f in fs:
            path_fn(c, f, name, rule, ll)


def path_fn(c, f, name, rule, ll):
    inner = "HashTreeNode" in str(f["self"])
    TM.LV.clear()
    r = c.run(f, lambda x: x["id"] == ll["id"], names=["t", "path"])
    N = "$t" if inner else "$t.root"

    # a loop over the labels: the node it has come to in place of the node
    def child(t):
        """The values t is the child of, under the next label, or None."""
        if t.op == "fld" and t.a[1] == "Found" and t.a[0].op == "call" and last(t.a[0].a[0]) == "lookup_label":
            h = unq(show(t.a[0].a[1][1]))
            if re.fullmatch(r"(?:as_ref\()?(?:each\(\$path\)|\$path\[0\]|next\(\$path\)~Some\.0)\)?", h):
                return [y for _, y in alts(t.a[0].a[1][0])]
        return None

    def fromroot(t, v, n=0):
        return t is v or unq(show(t)) == N or n < 6 and child(t) is not None and all(fromroot(y, v, n + 1) for y in child(t))
    at = {}
    for v, xs in list(TM.LV.items()):
        ts = [y for x in xs for _, y in alts(x)]
        if any(child(t) and v in child(t) for t in ts):
            at[show(v)] = v
            bad = [show(t) for t in ts if not fromroot(t, v)]
            c.ob(rule, f"{name}: the loop goes on in the child found under the next label", not bad, f, f"{bad[:3]}"[:600])

    def sh(t):
        x = unq(show(t))
        for v in at:
            x = x.replace(v, N)
        for w in ("as_ref(", "clone(", "as_bytes(", "to_owned("):
            x = re.sub(re.escape(w) + r"(\$[\w.\[\]]+|each\(\$path\))\)", r"\1", x)
        x = x.replace("each($path)", "HEAD").replace("$path[0]", "HEAD").replace("next($path)~Some.0", "HEAD")
        return x.replace("[*HEAD]", "$path")
    K = f"lookup_label({N}, HEAD)"

    def fact(k, s_):
        m = re.fullmatch(re.escape(N) + r" is (\w+)", k)
        if m:
            return s_["node"] == m[1]
        if k.startswith(K + " is "):
            return s_["label"] == k.rsplit(" ", 1)[1] if s_["more"] else None
        if k == "next($path) is Some" or k == "first($path) is Some" or k == "split_first($path) is Some":
            return s_["more"]
        if k in ("eq(0, len($path))", "is_empty($path)"):
            return not s_["more"]
        return None

    def value(t, s_):
        m = re.fullmatch(r"(?:\w+::)*(Absent|Unknown|Error)", t)
        if m:
            return m[1]
        if s_["more"] and re.fullmatch(name + r"\(" + re.escape(K) + r"~Found\.0(?:~\w+\.0)?, .*\)", t):
            rest = t[len(name) + 1 + len(K) + len("~Found.0, "):-1]
            if rest in ("$path", "iter($path@1)", "$path@1"):
                return "descend"
        if name == "lookup_path" and t == f"Found({N}~Leaf.0)":
            return "leaf value"
        if name == "lookup_subtree" and t == f"Found(HashTree(root: {N}))":
            return "node"
        return t[:300]

    def expect(s_):
        if s_["more"]:
            return {"Found": "descend", "Unknown": "Unknown"}.get(s_["label"], "Absent")
        if name == "lookup_subtree":
            return "node"
        return {"Leaf": "leaf value", "Empty": "Absent", "Pruned": "Unknown"}.get(s_["node"], "Error")
    table(c, rule, f, r, {"node": NODE, "label": LK, "more": (True, False)}, lambda s_: s_["more"] or s_["label"] == "Absent", fact, value, expect, sh,
          ("descend",) if at else ())


RULES = {"C12": c12}

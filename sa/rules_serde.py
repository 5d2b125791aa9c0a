"""Rules about the serde form of hash trees and certificates."""

from fw import *
import re
from rules_hash import unq

IC = "ic_certification"
# tag, number of elements, elements as written from a node, parts of the node read from the elements
NODES = {
    "Empty": (0, [], "Empty"),
    "Fork": (1, ["~Fork.0.0", "~Fork.0.1"], "Fork(($s[1], $s[2]))"),
    "Labeled": (2, ["~Labeled.0", "~Labeled.1"], "Labeled(Label($s[1]), $s[2])"),
    "Leaf": (3, ["~Leaf.0"], "Leaf($s[1])"),
    "Pruned": (4, ["~Pruned.0"], "Pruned($s[1])"),
}
FIELDS = {"Certificate": ("tree", "signature", "delegation"), "Delegation": ("subnet_id", "certificate")}


def conv(t):
    """Storage conversions copy the bytes."""
    def f(x):
        if x.op == "call" and last(x.a[0]) in ("convert", "to_owned", "into", "to_vec", "from") and len(x.a[1]) == 1:
            return x.a[1][0]
        return x
    return rewrite(t, f, {})


def of(c, name, ty, arg=None):
    r = [f for f in c.fns(IC, name) if re.search(r"\b" + ty + r"(<|$|\b)", re.sub(r"^.*::(?=\w+(<|$))", "", str(f.get("self")).split("<")[0])) and "SerializeWith" not in f["path"]]
    return r


def items(t):
    """The elements a serializer wrote, as (announced, [(value, guards)])."""
    if t.op != "adt" or t.a[1] != "Ok" or t.a[3][0].op != "list":
        return None
    its = t.a[3][0].a[0]
    if not its or unq(show(its[0][1])).split("(")[0] != "announced":
        return None
    return its[0][1].a[1][0], [(x, g) for _, x, g in its[1:]]


def c35(c):
    c.rule("tree-ser", "a node is written as the sequence of its tag (0 empty, 1 fork, 2 labeled, 3 leaf, 4 pruned) and its parts in order, "
                       "announced with that length")
    for ty, root in (("HashTreeNode", "$t"), ("HashTree", "$t.root")):
        fs = [f for f in of(c, "serialize", ty + "$") or of(c, "serialize", ty)]
        fs = [f for f in fs if re.search(r"(^|::)" + ty + r"<", str(f.get("self")))]
        c.count("tree-ser", f"serializer of {ty}", len(fs), 1, IC)
        for f in fs:
            r = c.run(f, names=["t", "s"])
            seen = dict.fromkeys(NODES, 0)
            for d, t in by_kind(r, root, "Ok"):
                ks = [k for k in NODES if f"{root} is {k}" in {unq(x) for x in fact_strs(d)}]
                w = items(t)
                if len(ks) != 1 or w is None:
                    c.ob("tree-ser", f"{ty}: what is written depends on the kind of node", False, f, unq(show(t))[:400])
                    continue
                k = ks[0]
                seen[k] += 1
                tag, parts, _ = NODES[k]
                n, got = unq(show(w[0])), [(unq(show(x)), g) for x, g in w[1]]
                txt = [re.sub(r"(~Labeled\.0)\.0$", r"\1", x) for x, _ in got]
                good = n in (f"Some({len(parts) + 1})", str(len(parts) + 1)) and txt == [str(tag)] + [root + p for p in parts] and not any(implied_not(g, d) for _, g in got)
                c.ob("tree-ser", f"{ty}: {k}", good, f, f"announces {n}, writes {txt}; expected {tag} and {parts}")
            for k, n in seen.items():
                c.count("tree-ser", f"exits of {ty} for {k}", n, 1, f)
    label_ser(c)
    c.rule("tree-de", "a sequence is read back as the node whose tag it starts with, each part from its own element, nothing following")
    fs = [f for f in c.fns(IC, "visit_seq") if "HashTreeNodeVisitor" in str(f.get("self"))] or \
         [f for f in c.fns(IC, "visit_seq") if "HashTreeNode" in f["locals"][0][0]]
    c.count("tree-de", "reader of hash tree nodes", len(fs), 1, IC)
    for f in fs:
        r = c.run(f, names=["t", "s"])
        seen = dict.fromkeys(NODES, 0)
        for d, t in by_variant(r, "Ok"):
            F = {unq(x) for x in fact_strs(d)}
            ks = [k for k, (tag, _, _) in NODES.items() if eqs("$s[0]", str(tag)) in F]
            x = unq(show(conv(t)))
            if len(ks) != 1:
                c.ob("tree-de", "a node is read behind its tag only", False, f, f"{x[:300]} under {sorted(F)}"[:900])
                continue
            k = ks[0]
            seen[k] += 1
            tag, parts, want = NODES[k]
            need = {f"elem($s, {i}) is Some" for i in range(len(parts) + 1)} | {f"!elem($s, {len(parts) + 1}) is Some"}
            lost = [y for y in F if y.startswith("!readable($s,")]
            c.ob("tree-de", f"{k}: what cannot be read is an error", not lost, f, str(lost)[:300])
            c.ob("tree-de", k, x == f"Ok({want})" and need <= F, f, f"gives {x[:300]}, expected {want}\nmissing {sorted(need - F)}")
        for k, n in seen.items():
            c.count("tree-de", f"exits for {k}", n, 1, f)
    certs(c)


def implied_not(g, d):
    return bool(g) and not implied(d, g)


def label_ser(c):
    fs = [f for f in c.fns(IC, "serialize") if re.search(r"(^|::)Label<", str(f.get("self")))]
    for f in fs:
        r = c.run(f, names=["t", "s"])
        n = 0
        for d, t in by_variant(r):
            F = {unq(x) for x in fact_strs(d)}
            if "!is_human_readable($s)" not in F and "is_human_readable($s)" in F:
                continue
            x = unq(show(t))
            if x.startswith("Err"):
                continue
            n += 1
            c.ob("tree-ser", "a label is written as its bytes in binary formats", x.replace("~Ok.0", "").replace("Ok(", "(") in
                 ("serialize_bytes($s, $t.0)", "(serialize_bytes($s, $t.0))"), f, x[:300])
        c.count("tree-ser", "binary exits of Label", n, 1, f)


def certs(c):
    c.rule("cert-ser", "a certificate or delegation is written as a structure of its own fields under their names; the delegation exactly when there is one")
    c.rule("cert-de", "and read back, each field from the entry of its name")
    for ty, names in FIELDS.items():
        fs = [f for f in c.fns(IC, "serialize") if re.search(r"(^|::)" + ty + "<", str(f.get("self"))) and "SerializeWith" not in f["path"]]
        c.count("cert-ser", f"serializer of {ty}", len(fs), 1, IC)
        for f in fs:
            r = c.run(f, names=["t", "s"])
            m = 0
            for d, t in by_variant(r, "Ok"):
                w = items(t)
                m += 1
                if w is None:
                    c.ob("cert-ser", ty, False, f, unq(show(t))[:400])
                    continue
                got = []
                for x, g in w[1]:
                    y = re.sub(r"__SerializeWith\(values: \((.*)\), phantom: PhantomData\)", r"\1", unq(show(x)))
                    G = {unq(z) for z in fact_strs(g) if (g - d)}
                    got.append(y + (" if " + ", ".join(sorted(G)) if G else ""))
                F = {unq(z) for z in fact_strs(d)}
                want = []
                for n in names:
                    if n == "delegation":
                        if "!$t.delegation is Some" in F:
                            continue
                        ws = "('delegation', $t.delegation)"
                        if "$t.delegation is Some" not in F:
                            ws += " if $t.delegation is Some"
                        want.append(ws)
                    else:
                        want.append(f"('{n}', $t.{n})")
                c.ob("cert-ser", f"{ty} writes {', '.join(names)}", got == want, f, f"writes {got}, expected {want}")
            c.count("cert-ser", f"exits of {ty}", m, 1, f)
        for f in [f for f in c.fns(IC, "visit_seq") if re.search(r"\b" + ty + r"<", f["locals"][0][0]) and re.search(r"Result<[\w:]*\b" + ty + "<", f["locals"][0][0]) or f["name"] == "visit_seq" and ty + "Visitor" in str(f.get("self"))]:
            r = c.run(f, names=["t", "s"])
            for d, t in by_variant(r, "Ok"):
                v = conv(t)
                v = v.a[3][0] if v.op == "adt" and v.a[1] == "Ok" else v
                for i, n in enumerate(names):
                    x = field(v, n)
                    lost = [q for g, _ in alts(x) for q in dnf(d | g) if any(y.startswith("!readable($s,") for y in fact_strs(q))]
                    c.ob("cert-de", f"{ty}.{n}: what cannot be read is an error", not lost, f, f"read under {[sorted(fact_strs(q)) for q in lost[:2]]}"[:600])
                    xs = {unq(show(y)) for _, y in alts(x)}
                    want = {f"$s[{i}]"} if n != "delegation" else {"None", f"Some($s[{i}])"}
                    c.ob("cert-de", f"{ty}.{n} is element {i} of a sequence", xs <= want and f"$s[{i}]" in str(xs), f, str(sorted(xs))[:300])
        mfs = [f for f in c.fns(IC, "visit_map") if ty + "Visitor" in str(f.get("self")) or re.search(r"Result<[\w:]*\b" + ty + "<", f["locals"][0][0])]
        c.count("cert-de", f"map reader of {ty}", len(mfs), 1, IC)
        keys = key_names(c, ty)
        for f in mfs:
            TM.LV.clear()
            r = c.run(f, names=["t", "s"])
            m = 0
            for d, t in by_variant(r, "Ok"):
                m += 1
                v = conv(t)
                v = v.a[3][0] if v.op == "adt" and v.a[1] == "Ok" else v
                for n in names:
                    src = sources(field(v, n))
                    lost = unread(field(v, n), keys.get(n))
                    c.ob("cert-de", f"{ty}.{n} is read whenever the map has it", not lost, f, lost[:900])
                    bad = [f"{x[:80]} if {sorted(k)}" for x, k in src if k != {keys.get(n)}]
                    c.ob("cert-de", f"{ty}.{n} is the map's value for '{n}'", src and not bad and n in keys, f,
                         f"key enum: {keys}; sources: {bad or src}"[:900])
            c.count("cert-de", f"map exits of {ty}", m, 1, f)


def key_names(c, ty):
    """field name -> variant of the key enum that stands for it."""
    out = {}
    for f in c.fns(IC, "visit_str"):
        if ty + "Field" not in f["path"] and ty + "Field" not in f["locals"][0][0]:
            continue
        r = c.run(f, names=["t", "s"])
        for d, t in by_variant(r, "Ok"):
            for k, v in d:
                m = re.fullmatch(r"eq\(\$s, '(\w+)'\)", show(k))
                if v and m and t.op == "adt":
                    out[m.group(1)] = t.a[3][0].a[1]
    return out


def sources(t):
    """(value, key variants) of every read entry that can reach a loop-carried field."""
    out, done, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        for z in t_all(x) if x.op != "lv" else [x]:
            if z.op == "lv":
                for y in TM.LV.get(z, ()):
                    for g, a in alts(y):
                        if a.op == "lv":
                            todo.append(a)
                        elif a.op == "adt" and a.a[1] == "None":
                            pass
                        elif a.op == "adt" and a.a[1] == "Some" and "next_value" in show(a):
                            for q in dnf(g):
                                # the key that came with this value: the same state of the map
                                val = a.a[3][0]
                                while val.op == "fld":
                                    val = val.a[0]
                                if val.op == "call" and not re.match(r"[\w:]*next_key!\d+\(lv\(", show(val.a[1][0])):
                                    continue    # a first iteration: the same step, before the loop state was generalised
                                st = re.sub(r"next_key!\d+\(", "next_key(", show(val.a[1][0])) if val.op == "call" else "?"
                                ks = {c2.a[1] for c2, v in q if v and c2.op == "is" and show(c2.a[0]) == st + "~Ok.0~Some.0"}
                                out.append((show(a), ks))
                        else:
                            out.append((show(a), {"?"}))
    return out


def unread(t, key):
    """How a loop-carried field can stay as it was in an iteration that read its key."""
    lvs, todo = set(), [t]
    while todo:
        x = todo.pop()
        for z in t_all(x) if x.op != "lv" else [x]:
            if z.op == "lv" and z not in lvs:
                lvs.add(z)
                todo += [a for y in TM.LV.get(z, ()) for _, a in alts(y) if a.op == "lv"]
    for z in lvs:
        for y in TM.LV.get(z, ()):
            for g, a in alts(y):
                if a.op != "lv" and not (a.op == "adt" and a.a[1] == "None"):
                    continue
                for q in dnf(g):
                    if any(v and x.op == "is" and x.a[1] == key and "next_key" in show(x) for x, v in q):
                        return f"stays {show(a)[:60]} although its key was read, when {sorted(unq(s) for s in fact_strs(q))}"
    return ""


RULES = {"C35": c35}

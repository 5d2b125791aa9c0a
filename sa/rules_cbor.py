"""Rules about CBOR: the generic decoder, and the hash trees, certificates and arrays read from it."""

import json
import re

from fw import *
from rules_hash import unq

CB, IC = "ic_cbor", "ic_certification"


def item_parser(c):
    fs = [f for f in c.prog.fns.values() if f["crate"] == CB and f["kind"] != "Closure" and f["args"] == 1
          and re.search(r"\(&(?:'\w+ )?\[u8\], (?:\w+::)*CborValue\)", f["locals"][0][0])]
    if len(fs) != 1:
        raise Anchor(f"the CBOR item parser: found {[f['name'] for f in fs]}")
    return fs[0]


def unqf(t):
    """Text of a term; functions given as values by their name, casts that keep the value left out."""
    def f(x):
        if x.op == "fn":
            return mk("abbr", json.loads(x.a[0])["name"])
        if x.op == "cast" and x.a[0] in ("usize", "u64"):
            return x.a[-1]
        return x
    return unq(show(rewrite(t, f, {})))


class Num:
    """A CBOR argument: its text, the rest of the input, and what must have been readable."""

    def __init__(self, byte):
        info = byte & 31
        self.width = {24: 1, 25: 2, 26: 4, 27: 8}.get(info)
        self.bad = info > 27
        if self.width:
            self.text = f"be(skip($i, 1), {self.width})"
            self.rest = f"skip(skip($i, 1), {self.width})"
            self.needs = {"read($i, 1) is Ok", f"read(skip($i, 1), {self.width}) is Ok"}
        else:
            self.text = str(info)
            self.rest = "skip($i, 1)"
            self.needs = {"read($i, 1) is Ok"}
        self.n = None if self.width else info


def drop_literal(s_):
    return s_


def c33(c):
    c.rule("cbor-item", "for each of the 256 initial bytes: the major type decides the kind of value, the additional information "
                        "the argument (0-23 itself, 24-27 the next 1, 2, 4 or 8 bytes big-endian, nothing else); integers keep "
                        "value and sign, strings take exactly the declared bytes, arrays and maps the declared number of items, "
                        "tags and simple values are skipped")
    fn = item_parser(c)
    P = fn["name"]
    r = c.run(fn, names=["i"])
    bes = {x for _, y in alts(r.ret) for x in t_all(y) if x.op == "call" and x.a[0] == "be"}
    first = [x for x in bes if show(x) == "be($i, 1)"]
    if not first:
        for g, _ in alts(r.ret):
            for f, _ in g:
                first += [x for x in t_all(f) if show(x) == "be($i, 1)"]
    if not first:
        raise Anchor("the decoder does not read an initial byte")
    first = first[0]
    ex = by_variant(r, "Ok")
    # outcomes are computed once per exit and byte
    memos = {}
    reads = {x for d, y in ex for k, _ in d for x in t_all(k) if x.op == "call" and x.a[0] == "read"}
    for byte in range(256):
        memo = memos.setdefault(byte, {})
        got = {}
        for d, t in ex:
            d2 = evaluate_facts(d, {first: byte}, memo)
            if d2 is None:
                continue
            v = evaluate(specialize(t, d), {first: byte}, memo)
            if has(v, NEVER):
                continue
            got.setdefault((v, d2), None)
        bad = byte_ok(byte, list(got), Ctx(c, P, lambda t, byte=byte, memo=memo: evaluate(t, {first: byte}, memo)))
        kind = ("unsigned", "negative", "bytes", "text", "array", "map", "tag", "simple")[byte >> 5]
        c.ob("cbor-item", f"initial byte 0x{byte:02x} ({kind}, information {byte & 31})", not bad, fn, bad)
    whole(c, P, fn)


class Ctx:
    def __init__(self, c, P, at):
        self.c, self.P, self.at = c, P, at
        self.pairs = {}


def byte_ok(byte, got, cx):
    n, P = Num(byte), cx.P
    major = byte >> 5
    if n.bad:
        return "" if not got else f"an item with reserved additional information is accepted: {[unqf(v)[:200] for v, _ in got][:2]}"
    if not got:
        return "no accepting exit"
    seen = set()
    for v, d in got:
        fs = {unqf(k) if b else "!" + unqf(k) for k, b in d}
        if major in (6, 7):
            inner = f"{P}({n.rest})"
            t = unqf(v)
            if t not in (f"{inner}~Ok.0", f"Ok(({inner}~Ok.0.0, {inner}~Ok.0.1))", inner):
                return f"gives {t[:300]}, expected the item after the header ({inner})"
            continue
        if v.op != "adt" or v.a[1] != "Ok" or v.a[3][0].op != "adt":
            return f"gives {unqf(v)[:300]}"
        rest, val = v.a[3][0].a[3]
        for g, x in alts(val):
            gs = fs | {unqf(k) if b else "!" + unqf(k) for k, b in g}
            e = one_value(major, n, rest, x, gs, cx, g | d)
            if e:
                return e
            seen.add(x.a[1] if x.op == "adt" else "?")
    if major == 0 and n.n is not None and n.n < 5 and "HashTree" not in seen:
        return f"{n.n} must be read as a tree tag; values: {seen}"
    return ""


def one_value(major, n, rest_, x, fs, cx, g):
    if x.op != "adt" or len(x.a[3]) != 1:
        return f"value {unqf(x)[:200]}"
    P, rest = cx.P, unqf(rest_)
    kind, p = x.a[1], x.a[3][0]
    want = {0: ("Unsigned", "HashTree"), 1: ("Signed",), 2: ("ByteString",), 3: ("ByteString",), 4: ("Array",), 5: ("Map",)}[major]
    if kind not in want:
        return f"is a {kind}: {unqf(p)[:200]}"
    if major < 2 and rest != n.rest:
        return f"goes on at {rest[:200]}, expected {n.rest}"
    if kind == "HashTree":
        for h, y in alts(p):
            e = tree_tag(n, unqf(y), fs | {unqf(k) if b else "!" + unqf(k) for k, b in h})
            if e:
                return e
        return ""
    if kind == "Signed":
        return negative(n, p, g)
    t = unqf(p)
    if kind == "Unsigned":
        w = {None: "UInt8", 1: "UInt8", 2: "UInt16", 4: "UInt32", 8: "UInt64"}[n.width]
        return "" if t == f"{w}({n.text})" else f"is {t[:200]}, expected {w}({n.text})"
    if kind == "ByteString":
        ok_ = t == f"prefix({n.rest}, {n.text})" and rest == f"skip({n.rest}, {n.text})"
        return "" if ok_ else f"is {t[:200]}, going on at {rest[:200]}; expected the {n.text} bytes after the header"
    if kind == "Array":
        q = f"count({P}, {n.text}, {n.rest})"
        if t == f"value({q})" and rest == f"rest({q})":
            return ""
        # or a loop over the declared number of items
        e = "" if p.op == "list" and len(p.a[0]) == 1 and p.a[0][0][0] == "rep" else "not one item after another"
        e = e or in_turn(n, p.a[0][0], rest_, p, fs, cx, lambda s: (f"{P}({s})~Ok.0.1", f"{P}({s})~Ok.0.0"))
        return e and f"is {t[:300]}, going on at {rest[:200]}; expected {n.text} items after the header: {e}"
    pre = f"fold({n.text}, {n.text}, "
    if t.startswith("fold(" + pre) and rest.startswith(f"rest({pre}") and p.op == "call" and len(p.a[1]) == 2:
        q = unqf(p.a[1][0])
        if not q.endswith(f", {n.rest})"):
            return f"the entries are read from {q[:200]}"
        item = f"item({q})"
        e = unqf(p.a[1][1])
        return "" if e == f"[{entry_of(P, item)[0]}]" else f"an entry is {e[:400]}"
    # entries read first, then collected
    m = re.fullmatch(r"value\(count\((\w+), (.*)\)\)", t)
    if m and m[2] == f"{n.text}, {n.rest}" and rest == f"rest(count({m[1]}, {n.text}, {n.rest}))":
        return entry_parser(cx, p)
    if p.op == "list" and len(p.a[0]) == 1:
        e = in_turn(n, p.a[0][0], rest_, p, fs, cx, lambda s: entry_of(P, s))
        return e and f"is {t[:300]}, going on at {rest[:200]}; expected {n.text} entries after the header: {e}"
    return f"is {t[:300]}; expected {n.text} entries after the header"


def tree_tag(n, t, fs):
    names = ["Empty", "Fork", "Labelled", "Leaf", "Pruned"]
    if n.n is not None:
        return "" if n.n < 5 and t == names[n.n] else f"{n.n} is read as the tree tag {t[:100]}"
    k = [i for i in range(5) if eqs(str(i), n.text) in fs]
    return "" if k and t.endswith(names[k[0]]) and n.width == 1 else f"{n.text} is read as the tree tag {t[:100]} under {sorted(fs)[:6]}"


def entry_of(P, s):
    """An entry read from s, and what is left: a text key, then a value."""
    return f"({P}({s})~Ok.0.1~ByteString.0, {P}({P}({s})~Ok.0.0)~Ok.0.1)", f"{P}({P}({s})~Ok.0.0)~Ok.0.0"


def entry_parser(cx, p):
    """A separate function for one entry gives what entry_of says."""
    f = next((json.loads(x.a[0]) for x in t_all(p) if x.op == "fn"), None)
    fn = f and cx.c.prog.fns.get(f["id"])
    if fn is None:
        return f"the entries are read by {f and f['name']}"
    if fn["name"] not in cx.pairs:
        r = cx.c.run(fn, boundary=lambda h: h["name"] == cx.P, names=["i"])
        want, rest = entry_of(cx.P, "$i")
        key = f"{cx.P}($i)~Ok.0.1~ByteString.0"
        cx.pairs[fn["name"]] = next((f"an entry is {s[:400]}" if s != f"Ok(({rest}, {want}))" else f"a key need not be text: {sorted(fact_strs(d))}"[:600]
                                     for d, y in by_variant(r, "Ok") for s in [unqf(y)]
                                     if s != f"Ok(({rest}, {want}))" or f"from_utf8({key}) is Ok" not in {unq(x) for x in fact_strs(d)}), "")
    return cx.pairs[fn["name"]]


def in_turn(n, item, rest, seq, fs, cx, one):
    """A loop that reads exactly the declared number of items, each where the one before ended."""
    if rest.op != "lv":
        return f"goes on at {unqf(rest)[:200]}"
    s = unqf(rest)
    want, nxt = one(s)
    if unqf(item[1]) != want:
        return f"an item is {unqf(item[1])[:300]}"
    vs = {unqf(cx.at(v)) for v in TM.LV.get(rest, ())}
    if not vs <= {n.rest, nxt} or n.rest not in vs:
        return f"items are read at {sorted(v[:200] for v in vs)}"
    k = n.text
    if f"!next(Range(start: 0, end: {k})) is Some" in fs or f"!next(Range({{start: 0, end: {k}}})) is Some" in fs or f"!lt(len({unqf(seq)}), {k})" in fs:
        return ""
    for lv, us in TM.LV.items():
        if f"!lt({unqf(lv)}, {k})" in fs and {unqf(cx.at(u)) for u in us} <= {"0", f"Add({unqf(lv)}, 1)", f"Add(1, {unqf(lv)})"}:
            return ""
    return f"nothing says that there are {k}: {sorted(f for f in fs if 'next' in f or 'lt(' in f)[:4]}"


def negative(n, p, g):
    """A negative integer -1-n: right at every breakpoint of its range conditions."""
    import bisect  # noqa: F401
    nt = [x for x in {z for z in t_all(p)} | {z for k, _ in g for z in t_all(k)} if x.op == "call" and x.a[0] == "be" and unqf(x) == n.text]
    if n.n is not None:
        if p.op == "adt" and len(p.a[3]) == 1:
            q = num(evaluate(p.a[3][0], {}))
            return "" if q == -1 - n.n else f"is {unqf(p)[:200]}, expected {-1 - n.n}"
        return f"is {unqf(p)[:200]}"
    if not nt:
        return f"does not depend on its argument: {unqf(p)[:200]}"
    top = (1 << (8 * n.width)) - 1
    pts = {0, 1, top}
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        pts |= {(1 << b) + k for k in (-2, -1, 0, 1)}
    for a, x in alts(p):
        for k, _ in a | g:
            for z in t_all(k):
                if z.op == "int":
                    pts |= {abs(int(z.a[0])) + k2 for k2 in (-2, -1, 0, 1)}
    for m in sorted(q for q in pts if 0 <= q <= top):
        env = {nt[0]: m}
        for a, x in alts(p):
            d = evaluate_facts(a | g, env)
            if d is None or bounds_refute(d, m):
                continue
            if x.op != "adt" or len(x.a[3]) != 1:
                return f"is {unqf(x)[:200]}"
            q = num(evaluate(x.a[3][0], env))
            ty = {"Int8": "i8", "Int16": "i16", "Int32": "i32", "Int64": "i64"}.get(x.a[1])
            if q != -1 - m or ty is None or wrap(q, ty) != q:
                return f"an argument of {m} gives {x.a[1]}({q}), expected {-1 - m}"
    return ""


def bounds_refute(d, m):
    """Conversions and overflow checks that a value above i64's range does not pass."""
    for k, v in d:
        t = show(k)
        if v and t.startswith("try_into(") and m > 2**63 - 1:
            return True
    return False


def whole(c, P, fn):
    c.rule("cbor-whole", "a decoded value is the item the input starts with, and the input ends with it")
    f = c.fn(CB, "parse_cbor")
    r = c.run(f, lambda x: x["id"] == fn["id"], names=["i"])
    n = 0
    for d, t in by_variant(r, "Ok"):
        n += 1
        fs = {unqf(k) if b else "!" + unqf(k) for k, b in d}
        good = unqf(t) == f"Ok({P}($i)~Ok.0.1)" and (eqs("0", f"len({P}($i)~Ok.0.0)") in fs or f"is_empty({P}($i)~Ok.0.0)" in fs)
        c.ob("cbor-whole", "parse_cbor consumes all of its input", good, f, f"{unqf(t)[:300]} under {sorted(fs)[:8]}")
    c.count("cbor-whole", "accepting exits", n, 1, f)
    c.rule("cbor-array", "an array of strings (or of pairs of principals) gives one entry per element, in order: its text (or "
                         "its first two principals), and is refused when an element is anything else")
    for name, el in (("parse_cbor_string_array", None), ("parse_cbor_principals_array", 2)):
        f = c.fn(CB, name)
        r = c.run(f, c.bset(CB + ":parse_cbor"), names=["i"])
        A = "parse_cbor($i)~Ok.0~Array.0"
        m = 0
        for d, t in by_variant(r, "Ok"):
            m += 1
            v = t.a[3][0] if t.op == "adt" else t
            its = v.a[0] if v.op == "list" else ()
            if len(its) != 1 or its[0][0] != "rep":
                c.ob("cbor-array", name, False, f, f"not one entry per element: {unqf(v)[:400]}")
                continue
            x = unqf(its[0][1])
            e = f"each({A})"
            if el is None:
                good = x == f"{e}~ByteString.0"
                need = {f"from_utf8({e}~ByteString.0) is Ok"}
            else:
                p = [f"try_from_slice({e}~Array.0[{k}]~ByteString.0)" for k in (0, 1)]
                good = x == f"({p[0]}~Ok.0, {p[1]}~Ok.0)"
                need = {f"{q} is Ok" for q in p}
            gs = {unqf(k) if b else "!" + unqf(k) for k, b in its[0][2]}
            fs = {unqf(k) if b else "!" + unqf(k) for k, b in d}
            # leaving out an element is not an option: the conversions' failures refuse the whole array
            refused = any(k.startswith("collected(") and k.endswith(" is Ok") for k in fs) or not gs or need <= fs or {f"all({q})" for q in need} <= fs
            c.ob("cbor-array", name, good and (need <= gs | fs or {f"all({q})" for q in need} <= fs) and refused, f,
                 f"element {x[:300]} if {sorted(gs)[:6]}, refused otherwise: {refused}")
        c.count("cbor-array", f"{name} exits", m, 1, f)


# ---------------------------------------------------------------- hash trees
def nths(t):
    x = unqf(t)
    x = re.sub(r"nth\(\$i~Array\.0, (\d+)\)", r"#\1", x)
    return re.sub(r"\$i~Array\.0\[(\d+)\]", r"#\1", x)


def c13(c):
    c.rule("tree-decode", "an array headed by a tree tag decodes to the node of that tag with the following elements as its parts, "
                          "in order, each of the right type; a pruned node holds exactly 32 bytes")
    fn = c.fn(CB, "parsed_cbor_to_tree")
    N = fn["name"]
    r = c.run(fn, names=["i"])
    want = {"Empty": ("Empty", set()), "Leaf": ("Leaf(#1~ByteString.0)", {"#1 is ByteString"}),
            "Pruned": ("Pruned(#1~ByteString.0)", {"#1 is ByteString", "try_into(#1~ByteString.0) is Ok"}),
            "Labelled": (f"Labeled(Label(#1~ByteString.0), {N}(#2)~Ok.0.root)", {"#1 is ByteString", f"{N}(#2) is Ok"}),
            "Fork": (f"Fork(({N}(#1)~Ok.0.root, {N}(#2)~Ok.0.root))", {f"{N}(#1) is Ok", f"{N}(#2) is Ok"})}
    seen = dict.fromkeys(want, 0)
    for d, t in by_variant(r, "Ok"):
        fs = {("" if v else "!") + nths(k) for k, v in d}
        ks = [k for k in want if f"#0~HashTree.0 is {k}" in fs]
        x = nths(t)
        if len(ks) != 1 or not {"$i is Array", "#0 is HashTree"} <= fs:
            c.ob("tree-decode", "a node is read only behind its tag", False, fn, f"{x[:300]} under {sorted(fs)}"[:1500])
            continue
        seen[ks[0]] += 1
        w, need = want[ks[0]]
        val = re.sub(r"^Ok\(HashTree\(root: (.*)\)\)$", r"\1", x).replace("clone(", "(")
        c.ob("tree-decode", ks[0], val == w and need <= fs, fn, f"gives {x[:300]}, expected {w}\nmissing: {sorted(need - fs)}")
    for k, n in seen.items():
        c.count("tree-decode", f"exits for {k}", n, 1, fn)
    f = c.fns(CB, "from_cbor", pred=lambda f: "HashTree" in str(f.get("self")) or "HashTree" in str(f.get("trait")))
    entry(c, "tree-decode", f, fn, fn)


def entry(c, rule, fs, target, fn):
    """from_cbor is the conversion of the parsed input."""
    c.count(rule, "from_cbor", len(fs), 1, fn)
    for f in fs:
        r = c.run(f, lambda x: x["id"] == target["id"] or x["name"] == "parse_cbor" and x["crate"] == CB, names=["i"])
        for d, t in by_variant(r, "Ok"):
            q = f"{target['name']}(parse_cbor($i)~Ok.0)"
            x = unqf(t)
            c.ob(rule, "from_cbor converts the whole parsed input", x in (q, f"Ok({q}~Ok.0)", f"{q}~Ok.0"), f, x[:300])


def c34(c):
    c.rule("certificate-decode", "a certificate is read from the map entries tree, signature and delegation (subnet_id, "
                                 "certificate), each of the right type; it has a delegation exactly when the map has one")
    fs = [f for f in c.prog.fns.values() if f["crate"] == CB and f["kind"] != "Closure" and f["args"] == 1
          and "CborValue" in f["locals"][1][0] and re.search(r"Certificate\b", f["locals"][0][0])]
    if len(fs) != 1:
        raise Anchor(f"the certificate conversion: found {[f['name'] for f in fs]}")
    fn = fs[0]
    r = c.run(fn, c.bset(CB + ":parsed_cbor_to_tree"), names=["i"])

    def unqf(t):
        # an entry may be looked at or taken out
        return globals()["unqf"](rewrite(t, lambda x: mk("call", "mapget", x.a[1]) if x.op == "call" and x.a[0] == "mapremove" else x, {}))

    def g(m, k):
        return f"mapget({m}, '{k}')"
    M = "$i~Map.0"
    tree, sig, dele = (g(M, k) for k in ("tree", "signature", "delegation"))
    D = f"{dele}~Some.0~Map.0"
    sub, cert = g(D, "subnet_id"), g(D, "certificate")
    n = {True: 0, False: 0}
    for d, t in by_variant(r, "Ok"):
        fs_ = {("" if v else "!") + unqf(k) for k, v in d}
        v = t.a[3][0]
        base = {"$i is Map", f"parsed_cbor_to_tree({tree}~Some.0) is Ok", f"{sig}~Some.0 is ByteString"}
        good = unqf(field(v, "tree")) == f"parsed_cbor_to_tree({tree}~Some.0)~Ok.0" and unqf(field(v, "signature")) == f"{sig}~Some.0~ByteString.0"
        c.ob("certificate-decode", "tree and signature", good and base <= fs_, fn, f"{unqf(v)[:400]}\nmissing {sorted(base - fs_)}")
        for g2, x in alts(field(v, "delegation")):
            for e in dnf(g2 | d):
                if not consistent(e, frozenset()):
                    continue
                es = {("" if b else "!") + unqf(k) for k, b in e}
                y = unqf(x)
                present = f"{dele} is Some" in es or f"{dele}~Some.0 is Map" in es
                absent = f"!{dele} is Some" in es or f"!{dele}~Some.0 is Map" in es
                if y == "None":
                    n[False] += 1
                    c.ob("certificate-decode", "without a delegation", absent, fn, f"no delegation under {sorted(es)}"[:900])
                else:
                    n[True] += 1
                    w = f"Some(Delegation(subnet_id: {sub}~Some.0~ByteString.0, certificate: {cert}~Some.0~ByteString.0))"
                    need = {f"{sub}~Some.0 is ByteString", f"{cert}~Some.0 is ByteString", f"{dele}~Some.0 is Map"}
                    c.ob("certificate-decode", "with a delegation", y == w and present and need <= es, fn, f"{y[:500]}\nmissing {sorted(need - es)}")
    c.count("certificate-decode", "exits with a delegation", n[True], 1, fn)
    c.count("certificate-decode", "exits without a delegation", n[False], 1, fn)
    f = c.fns(CB, "from_cbor", pred=lambda f: "Certificate" in str(f.get("self")) or "Certificate" in str(f.get("trait")))
    entry(c, "certificate-decode", f, fn, fn)


RULES = {"C33": c33, "C13": c13, "C34": c34}

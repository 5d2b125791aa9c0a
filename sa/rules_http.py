"""Rules about the HTTP side: certificate header, certification paths, CEL mapping, messages, JS bindings."""

from fw import *
import re
from rules_hash import unq, pieces

HC, RV, IC, W = "ic_http_certification", "ic_response_verification", "ic_certification", "ic_response_verification_wasm"


def origins(t):
    """(value, facts) of everything a term can be, through alternatives and loop-carried variables."""
    out, done, todo = [], set(), [(frozenset(), t)]
    while todo:
        g, x = todo.pop()
        for g2, y in alts(x):
            q = g | g2
            if y.op == "lv":
                if y not in done:
                    done.add(y)
                    todo += [(frozenset(), z) for z in TM.LV.get(y, ())]
            else:
                out.append((y, q))
    return out


def norm(s):
    """A term's text: bytes as the text they are, no paths of functions or types."""
    def text(m):
        try:
            return repr(bytes.fromhex(m.group(1)).decode("ascii"))
        except ValueError:
            return m.group(0)
    s = re.sub(r"\bb\[((?:[0-9a-f]{2})+)\]", text, s)
    s = re.sub(r"\b(?:\w+::)+(\w+)", r"\1", s)
    return s


def nshow(t):
    return norm(unq(show(t)))


def pos(d):
    """Texts of facts, without the paths of functions."""
    return {norm(unq(x)) for x in fact_strs(d)}


def by_self(c, crate, name, ty, trait=None):
    r = [f for f in c.fns(crate, name) if re.search(r"(^|::)" + ty + r"(<|$)", str(f.get("self") or ""))]
    if trait:
        r = [f for f in r if trait in str(f.get("trait"))]
    if len(r) != 1:
        raise Anchor(f"{crate}::{ty}::{name}: found {len(r)}")
    return r[0]


# ---------------------------------------------------------------- the certificate header
def c15(c):
    c.rule("header-fields", "certificate, tree, version and expr_path of the header come from the field of that name, decoded: base64 and "
                            "CBOR for the certificate, tree and expression path, a number for the version; a field of such a name that does "
                            "not decode, a missing certificate or tree is an error; version is MIN_VERIFICATION_VERSION when there is none")
    fn = by_self(c, RV, "from", "CertificateHeader")
    fld = by_self(c, RV, "from", "CertificateHeaderField")
    b = c.bset("ic_cbor:from_cbor", "ic_cbor:parse_cbor_string_array")
    TM.LV.clear()
    r = c.run(fn, lambda f: b(f) or f["id"] == fld["id"], names=["h"])
    lo = min_version(c)

    def txt(t):
        s = unq(show(t))
        s = re.sub(r"Engine::decode\(GeneralPurpose\(.*?decode_padding_mode: (?:\w+::)*(\w+)\)\), ", r"b64(", s)
        s = re.sub(r"\bdecode\(GeneralPurpose\(encode_table: [^()]*config: GeneralPurposeConfig\([^()]*\)\), ", "b64(", s)
        for k in ("44", "','"):
            s = s.replace(f"from(each(split($h, {k})))~Some.0", "FIELD").replace(f"from(earlier(split($h, {k})))~Some.0", "BEFORE")
        return s
    want = {"certificate": ("certificate", "from_cbor(b64(FIELD.1)~Ok.0)~Ok.0", ["b64(FIELD.1) is Ok", "from_cbor(b64(FIELD.1)~Ok.0) is Ok"]),
            "tree": ("tree", "from_cbor(b64(FIELD.1)~Ok.0)~Ok.0", ["b64(FIELD.1) is Ok", "from_cbor(b64(FIELD.1)~Ok.0) is Ok"]),
            "version": ("version", "parse(FIELD.1)~Ok.0", ["parse(FIELD.1) is Ok"]),
            "expr_path": ("expr_path", "Some(parse_cbor_string_array(b64(FIELD.1)~Ok.0)~Ok.0)",
                          ["b64(FIELD.1) is Ok", "parse_cbor_string_array(b64(FIELD.1)~Ok.0) is Ok"])}
    default = {"version": str(lo), "expr_path": "None"}

    def fs(g):
        return {("" if v else "!") + txt(x) for x, v in g}
    n = 0
    for d, t in by_variant(r, "Ok"):
        n += 1
        v = t.a[3][0]
        for name, (field_name, value, need) in want.items():
            vals = origins(field(v, field_name))
            got = set()
            for x, g in vals:
                s = txt(x)
                who = "FIELD" if "FIELD" in s else "BEFORE"
                if who == "BEFORE":
                    s = s.replace("BEFORE", "FIELD")
                got.add(s)
                if s == default.get(name):
                    continue
                good = s == value
                c.ob("header-fields", f"what '{name}' holds is its field's value, decoded", good, fn, f"can be {s[:400]}; expected {value}")
                if good:
                    ok_ = all(eqs(f"'{name}'", f"{who}.0") in fs(q) for q in dnf(d | g))
                    c.ob("header-fields", f"'{name}' is taken from the field of that name", ok_, fn, f"under {sorted(fs(d | g))}"[:900])
            c.ob("header-fields", f"'{name}' can hold its field's value", value in got, fn, f"can be {sorted(got)}"[:900])
        # every field of a known name decodes
        bad = []
        alls = [x for x, y in d if x.op == "all" and y]
        for name, (_, _, need) in want.items():
            for x in alls:
                qs = dnf(frozenset([(x.a[0], True)]))
                for q in qs:
                    F = fs(q)
                    if eqs(f"'{name}'", "FIELD.0") in F and not set(need) <= F and not is_dup(q, name) and not (
                            {x.replace("FIELD", "BEFORE") for x in need + [eqs(f"'{name}'", "FIELD.0")]} <= F):  # one before was taken
                        bad.append(f"'{name}' passes with {sorted(F)}"[:400])
        c.ob("header-fields", "a field of a known name that does not decode is an error", not bad, fn, "\n".join(bad[:3]))
    c.count("header-fields", "success exits", n, 1, fn)
    header_field(c, fld)


def colonless(c, t):
    """t: the function take_while runs; does it go on exactly until the next colon?"""
    if t.op != "clo" or t.a[0] not in c.prog.fns:
        return None
    e = TM.mk("param", 900, "e")
    s = {("" if v else "!") + nshow(x) for x, v in TM.cond_fact(c.run(c.prog.fns[t.a[0]], args=[t, e]).ret, True)}
    return s in ({"!" + eqs(k, "$e")} for k in ("58", "':'")) or s


def header_field(c, fn):
    """CertificateHeaderField::from, when it is made of nom's parsers: what it takes for a name and a value, and what it refuses."""
    c.rule("header-field-syntax", "a header field is, once trimmed, name=value or name=:value:, with nothing behind the value; the name ends at "
                                  "the first '=' and neither it nor the value is empty; every such text is a field and no other is")
    r = c.run(fn, names=["f"])
    TU = "take_until('=', trim($f))"
    A = f"after(rest({TU}), '=')"
    some = list(by_variant(r, "Some"))
    calls = {}
    for d, t in by_variant(r):
        for x in list(subs_all(t)) + [y for g, _ in d for y in subs_all(g)]:
            if x.op == "call" and x.a[0].endswith("take_while") and len(x.a[1]) == 2:
                calls[x] = nshow(x)
    if not some or not all("take_until(" in nshow(t) for _, t in some) or not calls:
        return  # not written with nom
    verdict = {}
    for x in calls:
        verdict[x.a[1][0]] = verdict.get(x.a[1][0]) or colonless(c, x.a[1][0])
    W = set(calls.values())

    def after_value(t):
        """Is t what is left behind the value and its closing colon?"""
        al = [nshow(y) for _, y in alts(t)]
        ends = {f"rest({w})" for w in W} | {f"after(rest({w}), {k})" for w in W for k in ("58", "':'")}
        return set(al) <= ends and any(x.startswith("after(") for x in al)

    def at_end(x):
        return x.op == "eq" and any(z.op == "int" and str(z.a[0]) == "0" and (y.op == "len" and after_value(y.a[0]) or y.op == "call" and y.a[0] == "len" and after_value(y.a[1][0]))
                                    for y, z in (x.a[:2], x.a[1::-1]))
    n = 0
    for d, t in some:
        for q in dnf(d):
            n += 1
            F = pos(frozenset(q))
            name, value = (nshow(x) for x in t.a[3][0].a[3][:2])
            c.ob("header-field-syntax", "the name is what is before the first '=' of the trimmed field", name == f"value({TU})", fn, name[:300])
            ok_ = any(value == f"value({w})" and all(
                any(nshow(z) == (f"after({A}, {k})" if colon else A) and ("" if colon else "!") + f"begins({A}, {k})" in F | pos(g)
                    for k in ("58", "':'") for colon in (True, False)) for g, z in alts(x.a[1][1])) for x, w in calls.items())
            c.ob("header-field-syntax", "the value is what follows the '=', without its colons", ok_, fn, value[:400])
            left = any(v and at_end(x) for x, v in q)
            c.ob("header-field-syntax", "nothing follows the value", left, fn, f"a field is found with {sorted(F)}"[:600])
            for what, x in (("name", name), ("value", value)):
                c.ob("header-field-syntax", f"the {what} is not empty", f"!{eqs('0', f'len({x})')}" in F or "!" + eqs("''", x) in F, fn,
                     f"a field is found with {sorted(F)}"[:600])
    for f, v in verdict.items():
        if v is not None:
            c.ob("header-field-syntax", "a value goes on until the next colon", v is True, fn, f"the value goes on while {v}"[:300])
    for d, t in by_variant(r, "None"):
        for q in dnf(d):
            n += 1
            F = pos(frozenset(q))
            # a text that is a field is not refused
            why = f"!{TU} is Ok" in F or f"!begins(rest({TU}), '=')" in F or any(f"!{w} is Ok" in F for w in W) or any(
                eqs("0", f"len({x})") in F or eqs("''", x) in F for x in [f"value({TU})"] + [f"value({w})" for w in W]) or any(not v and at_end(x) for x, v in q)
            c.ob("header-field-syntax", "only a text that is no field is refused", why, fn, f"refused with {sorted(F)}"[:900])
    c.count("header-field-syntax", "exits", n, 2, fn)


def is_dup(q, name):
    return any(v and x.op == "is" and x.a[1] == "Some" and x.a[0].op == "lv" for x, v in q)


def min_version(c):
    for f in c.fns(RV, "get_min_verification_version") + [f for f in c.prog.fns.values() if f["name"] == "get_min_verification_version"]:
        r = c.run(f)
        return int(show(r.ret))
    return 1


# ---------------------------------------------------------------- certification
def cel_text(t):
    return t


def c23(c):
    c.rule("certification", "a certification of a response exists only if the response carries the expression header, and every expression "
                            "header it carries is the certification's expression; it holds the hash of that expression and the request and "
                            "response hashes for it")
    b = c.bset(f"{HC}:request_hash", f"{HC}:response_hash")
    cels = [f for f in c.fns(HC, "to_string")]
    for name, params in (("full", ["def", "request", "response", "body_hash"]), ("response_only", ["def", "response", "body_hash"])):
        fn = by_self(c, HC, name, "HttpCertification")
        TM.LV.clear()
        r = c.run(fn, b, names=params)
        n = 0
        exp = None
        for d, t in by_variant(r, "Ok"):
            n += 1
            F = pos(d)
            v = unq(show(t))
            m = re.search(r"cel_expr_hash: sha256\((.*?)\)[,)]", v)
            exp = m.group(1) if m else "?"
            # the expression hashed is the definition's text
            c.ob("certification", f"{name}: hashes its expression", "$def" in exp, fn, v[:400])
            hn, hv = "lower(each($response.headers).0)", "each($response.headers).1"
            isname, isval = eqs("'ic-certificateexpression'", hn), eqs(exp, hv)
            # one of them, the last or one before
            some = any({x.replace("each($response.headers)", w) for x in (isname, isval)} <= F for w in ("each($response.headers)", "earlier($response.headers)")) or \
                any({isname, isval} <= pos(q) for q in counted(d))
            every = False
            for x, val in d:
                if x.op == "all" and val:
                    qs = [pos(q) for q in dnf(frozenset([(x.a[0], True)]))]
                    every |= all("!" + isname in q or isval in q for q in qs)
            c.ob("certification", f"{name}: the response has the expression header, with this expression", some, fn, f"success requires only {sorted(F)}"[:900])
            c.ob("certification", f"{name}: every expression header has this expression", every, fn, f"success requires only {sorted(F)}"[:900])
            want = f"response_hash($response, $def.response, $body_hash)"
            c.ob("certification", f"{name}: response hash of this response for this expression", f"response_hash: {want}" in v, fn, v[:500])
            if name == "full":
                c.ob("certification", f"{name}: request hash of this request for this expression",
                     "request_hash: request_hash($request, $def.request)~Ok.0" in v and "request_hash($request, $def.request) is Ok" in F, fn, v[:500])
        c.count("certification", f"success exits of {name}", n, 1, fn)
        dup = [d for d, t in by_variant(r, "Err") if {eqs("'ic-certificateexpression'", "lower(each($response.headers).0)"),
                                                      eqs(exp, "each($response.headers).1")} <= pos(d)
               and "response_hash" not in str(pos(d)) and not any(x.startswith(("request_hash", "!request_hash")) for x in pos(d))]
        c.ob("certification", f"{name}: a second expression header is refused", bool(dup), fn, "no error exit with a matching expression header")
    fn = by_self(c, HC, "skip", "HttpCertification")
    r = c.run(fn)
    for d, t in by_variant(r):
        c.ob("certification", "skip: hash of the skip expression only", unq(show(t)) in (
            "HttpCertification(Skip(cel_expr_hash: sha256(Default(Skip))))",), fn, unq(show(t))[:300])


def c22(c):
    c.rule("cert-path", "a certification's place in the tree is: expression hash, request hash or '', response hash; the expression hash alone when skipping")
    fn = by_self(c, HC, "to_tree_path", "HttpCertification")
    r = c.run(fn, names=["c"])
    K = "$c.0"
    want = {"Full": ["cel_expr_hash", "request_hash", "response_hash"], "ResponseOnly": ["cel_expr_hash", "''", "response_hash"], "Skip": ["cel_expr_hash"]}
    seen = dict.fromkeys(want, 0)
    for d, t in by_kind(r, K):
        ks = [k for k in want if f"{K} is {k}" in pos(d)]
        got = [show(x) for _, x, _ in t.a[0]] if t.op == "list" and all(k == "it" for k, _, _ in t.a[0]) else [show(t)[:300]]
        k = ks[0] if len(ks) == 1 else "?"
        w = [x if x == "''" else f"{K}~{k}.{x}" for x in want.get(k, [])]
        if k in seen:
            seen[k] += 1
        c.ob("cert-path", k, got == w, fn, f"{got}, expected {w}")
    for k, n in seen.items():
        c.count("cert-path", f"exits for {k}", n, 1, fn)

    c.rule("expr-path", "an expression path is the path's non-empty segments, an empty one when it ends in '/', and '<$>' when exact, '<*>' when a wildcard; "
                        "behind 'http_expr' in the header")
    for name, pre in (("to_tree_path", []), ("to_expr_path", ["'http_expr'"])):
        f = by_self(c, HC, name, "HttpCertificationPath")
        r = c.run(f, names=["p"])
        n = 0
        for d, t in by_kind(r, "$p.0"):
            ks = [k for k in ("Exact", "Wildcard") if f"$p.0 is {k}" in pos(d)]
            if len(ks) != 1:
                c.ob("expr-path", f"{name} depends on the kind of path", False, f, show(t)[:300])
                continue
            n += 1
            bad = segments(specialize(t, d), d, f"$p.0~{ks[0]}.0", ks[0], pre)
            c.ob("expr-path", f"{name}: {ks[0]}", not bad, f, bad)
        c.count("expr-path", f"exits of {name}", n, 2, f)

    c.rule("tree-ops", "inserting or deleting an entry inserts or deletes the entry's path, with an empty value; the root hash is that of the tree "
                       "labelled 'http_expr'; a witness is labelled so too, and shows the entry's path; for a wildcard also the requested exact path and "
                       "every more specific wildcard")
    ent = by_self(c, HC, "to_tree_path", "HttpCertificationTreeEntry")
    pth = by_self(c, HC, "to_tree_path", "HttpCertificationPath")
    nested = {n: by_self(c, IC, n, "NestedTree") for n in ("insert", "delete", "witness", "clear", "root_hash")}
    b = c.bset(f"{IC}:merge_hash_trees", f"{IC}:labeled_hash", f"{HC}:more_specific_wildcards_for")
    ids = {f["id"] for f in nested.values()} | {ent["id"], pth["id"]}

    def bound(f):
        return b(f) or f["id"] in ids
    r = c.run(ent, lambda f: f["id"] in {pth["id"], fn["id"]}, names=["e"])
    for d, t in by_variant(r):
        its = flat(t, d)
        its = [re.sub(r"^\*", "", x).replace(".0)", ")") for x in its]
        c.ob("tree-ops", "an entry's path is its expression path and then its certification's",
             its == ["to_tree_path($e.path)", "to_tree_path($e.certification)"], ent, f"{its}"[:600])
    T = {"insert": "insert($self.tree, to_tree_path($entry), [])", "delete": "delete($self.tree, to_tree_path($entry))", "clear": "clear($self.tree)"}
    for name, want in T.items():
        f = by_self(c, HC, name, "HttpCertificationTree")
        r = c.run(f, bound, names=["self", "entry"])
        evs = [e for e in r.events if e.kind == "boundary" or last(e.path) in T or "NestedTree" in e.path]
        got = [norm(unq(call_text(e))) for e in r.events if re.search(r"NestedTree.*::(insert|delete|clear|modify)$", e.path or "")]
        mustfacts = [sorted(pos(e.facts)) for e in r.events if re.search(r"NestedTree.*::(insert|delete|clear|modify)$", e.path or "")]
        c.ob("tree-ops", f"{name}", got == [want] and not any(mustfacts), f, f"calls {got} under {mustfacts}, expected {want}"[:900])
    f = by_self(c, HC, "root_hash", "HttpCertificationTree")
    r = c.run(f, bound, names=["self"])
    for d, t in by_variant(r):
        c.ob("tree-ops", "root_hash", nshow((t)) == "labeled_hash('http_expr', root_hash($self.tree))", f, nshow((t))[:300])
    witness(c, bound)


def call_text(e):
    return f"{e.path}({', '.join(show(a) for a in e.args)})"


def flat(t, d):
    """Items of a sequence put together from others, as texts; '*x' is all of x."""
    out = []
    for k, x, g in (t.a[0] if t.op == "list" else chunks(t)):
        if x.op == "call" and x.a[0] in ("concat",):
            for y in x.a[1]:
                out += flat(y, d)
        elif x.op == "call" and x.a[0] == "concat_all":
            out += flat(x.a[1][0], d)
        elif k == "rep" and x.op == "elem":
            out.append("*" + nshow((x.a[0])))
        else:
            out.append(("*" if k == "rep" else "") + nshow((x)))
    return out


def segments(t, d, p, kind, pre):
    term = {"Exact": "'<$>'", "Wildcard": "'<*>'"}[kind]
    if t.op != "list":
        return f"not a list: {show(t)[:300]}"
    t = last_char(t)
    its = [(k, x, g - d) for k, x, g in t.a[0] if consistent(d, g)]
    for w in pre:
        if not its or (its[0][0], show(its[0][1])) != ("it", w) and show(its[0][1]) != w:
            return f"does not start with {w}: {show(t)[:300]}"
        its = its[1:]
    if len(its) != 3:
        return f"{len(its)} kinds of segment, expected 3: {show(t)[:600]}"
    (k1, a, g1), (k2, e, g2), (k3, z, g3) = its
    el = f"each(split({p}, 47))"
    els = (el, f"each(split({p}, '/'))")
    if show(a) not in els or k1 != "rep":
        return f"segments are {show(a)[:300]}"
    bad = same_guard(g1, {eqs("0", f"len({show(a)})"): "empty"}, lambda v: not v["empty"])
    if bad:
        return f"segments: {bad}"
    if show(e) not in ("''", "[]", "b[]"):
        return f"the segment of a trailing slash is {show(e)[:200]}"
    bad = same_guard(frozenset((x, v) for x, v in g2), {f"<impl str>::ends_with({p}, 47)": "slash", f"<impl str>::ends_with({p}, '/')": "slash"}, lambda v: v["slash"])
    if bad:
        return f"trailing slash: {bad}"
    if show(z) not in (term, "b[%s]" % term.strip("'").encode().hex()) or g3:
        return f"ends in {show(z)[:200]} {_g3(g3)}"
    return ""


def _g3(g):
    return f"if {sorted(fact_strs(g))}"[:300] if g else ""


def witness(c, bound):
    f = by_self(c, HC, "witness", "HttpCertificationTree")
    TM.LV.clear()
    r = c.run(f, bound, names=["self", "entry", "url"])
    seen = {"Exact": 0, "Wildcard": 0}
    for d, t in by_kind(r, "Wildcard", "Ok"):
        F = pos(d)
        ks = [k for k in seen if any(x.endswith(f"is {k}") and not x.startswith("!") for x in F)]
        s = nshow((t))
        if len(ks) != 1:
            c.ob("tree-ops", "a witness depends on the kind of path", False, f, f"{s[:400]} under {sorted(F)}"[:900])
            continue
        k = ks[0]
        seen[k] += 1
        m = re.fullmatch(r"Ok\(HashTree\(root: Labeled\('http_expr', (.*)\)\)\)", s, re.S)
        c.ob("tree-ops", f"{k}: the witness is labelled 'http_expr'", bool(m), f, s[:300])
        body = m.group(1) if m else s
        own = "witness($self.tree, to_tree_path($entry))"
        if k == "Exact":
            c.ob("tree-ops", "Exact: witness of the entry's path", body in (own, own + ".root"), f, body[:400])
            continue
        req = "to_tree_path(HttpCertificationPath(Exact($url)))"
        resp = "to_tree_path($entry.path)"
        base = [f"witness($self.tree, {req})", f"witness($self.tree, {resp})"]
        mw = f"witness($self.tree, each(more_specific_wildcards_for({req}, {resp})))"
        node = t.a[3][0].a[3][0].a[3][1] if m else t
        cond = [sorted(x) for e in r.events if last(e.path) == "witness" and len(e.args) > 1 and mw in {f"witness($self.tree, {y})" for y in walked(e.args[1]) or {wtext(e.args[1])}}
                for x in [{x for x in pos(e.facts) - F if not re.fullmatch(r"next\(.*\) is Some", x)}] if x]
        c.ob("tree-ops", "Wildcard: no more specific wildcard is left out", not cond, f, f"only those with {cond[:1]}"[:600])
        bad = merged(node.a[0] if node.op == "fld" else node, set(base), mw)
        c.ob("tree-ops", "Wildcard: witness of the requested path, of the responding path and of every more specific wildcard", not bad, f, bad[:1500])
    for k, n in seen.items():
        c.count("tree-ops", f"witness exits for {k}", n, 1, f)


def parts(t):
    """Witnesses that are in t for sure."""
    if t.op == "phi":
        return set.intersection(*(parts(x) for _, x in alts(t)))
    if t.op == "call" and last(t.a[0]) == "merge_hash_trees":
        return set().union(*(parts(x) for x in t.a[1]))
    return {wtext(t)}


def walked(y):
    """Texts of the values y has over a loop through a list of paths; None unless y is an item of a list walked through."""
    if y.op != "phi":
        return None
    out = set()
    for g, z in y.a[0]:
        walks = [c.a[0].a[0] for c, v in g if v and c.op == "is" and c.a[1] == "Some" and c.a[0].op == "next"]
        walks = [w.a[0] if w.op == "iter" else w for w in walks]
        if len(walks) != len(g) or not walks or any(w.op != "list" or not any(x is z and not h for _, x, h in w.a[0]) for w in walks):
            return None
        out.add(wtext(z))
    return out


def visited(t):
    """Witnesses merged over a loop through a list of paths."""
    if t.op == "call" and last(t.a[0]) == "merge_hash_trees":
        return set().union(*(visited(x) for x in t.a[1]))
    ts = walked(t.a[1][1]) if t.op == "call" and last(t.a[0]) == "witness" and len(t.a[1]) == 2 else None
    return {f"witness({wtext(t.a[1][0])}, {x})" for x in ts or ()}


def merged(t, base, each):
    """What is wrong if t is not a merge of base and, in a loop, of each."""
    if t.op != "lv":
        return f"{wtext(t)} is not extended by {each}" if each not in parts(t) else f"lacks {base - parts(t)}" if base - parts(t) else ""
    vals = TM.LV.get(t, ())
    grow = [x for x in vals if {wtext(t), each} <= parts(x) | visited(x)]
    also = set.intersection(*map(visited, grow)) if grow else set()
    for x in vals:
        p = parts(x) | also
        if not (base <= p or x in grow):
            return f"can be {wtext(x)}, which lacks {sorted(base - p)}"
    return "" if grow else f"no {each}"


def wtext(t):
    return nshow(t).replace("$entry.path.0)", "$entry.path)")


def subs_all(t):
    out, todo, done = set(), [t], set()
    while todo:
        x = todo.pop()
        for y in t_all(x):
            out.add(y)
            if y.op == "lv" and y not in done:
                done.add(y)
                todo += list(TM.LV.get(y, ()))
    return out


RULES = {"C15": c15, "C22": c22, "C23": c23}


# ---------------------------------------------------------------- CEL expressions
def unbox(s):
    return re.sub(r"\(('[^']*')\)", r"\1", s)


def c24(c):
    c.rule("cel-read", "an expression is read as skipping, response only or full certification exactly when it is default_certification(ValidationArgs{..}) with "
                       "no_certification, or certification:Certification{..} with no_request_certification or request_certification:RequestCertification{..}; "
                       "never with both of a pair; its header and parameter lists are those of the properties so named, all of them")
    fn = c.fn(RV, "map_cel_ast")
    runs = c.paths(fn, lambda f: f["crate"] == RV and "ast_mapping" in f["path"], names=["cel"])
    A = "$cel~Function.1[0]"
    args = A + "~Object.1"

    def get(m, k):
        return f"mapget({m}, '{k}')"

    def obj(v, name):
        return {f"{v} is Object", eqs(f"'{name}'", v + "~Object.0")}

    def strings(v):
        return f"[*each({v}~Array.0)~String.0]", {f"{v} is Array", f"all(each({v}~Array.0) is String)"}
    base = {"$cel is Function", eqs("$cel~Function.0", "'default_certification'"), eqs("0", "len($cel~Function.1)").join(("!", ""))} | obj(A, "ValidationArgs")
    nc, ce = get(args, "no_certification"), get(args, "certification")
    C = ce + "~Some.0"
    cert = {f"{ce} is Some", f"!{nc} is Some"} | obj(C, "Certification")
    nr, rc, rs = (get(C + "~Object.1", k) for k in ("no_request_certification", "request_certification", "response_certification"))
    R, P = rc + "~Some.0", rs + "~Some.0"
    chs, chf = strings(get(R + "~Object.1", "certified_request_headers") + "~Some.0")
    cqs, cqf = strings(get(R + "~Object.1", "certified_query_parameters") + "~Some.0")
    full = {f"{rc} is Some", f"!{nr} is Some"} | obj(R, "RequestCertification") | chf | cqf | {
        get(R + "~Object.1", k) + " is Some" for k in ("certified_request_headers", "certified_query_parameters")}
    only = {f"{nr} is Some", f"!{rc} is Some"}
    resp = {f"{rs} is Some"} | obj(P, "ResponseCertification")
    lists = {}
    for k, other in (("certified_response_headers", "response_header_exclusions"), ("response_header_exclusions", "certified_response_headers")):
        L, O = get(P + "~Object.1", k), get(P + "~Object.1", other)
        h, oh = get(L + "~Some.0~Object.1", "headers"), get(O + "~Some.0~Object.1", "headers")
        s, need = strings(h + "~Some.0")
        lists[k] = (s, {f"{L} is Some", f"{h} is Some"} | obj(L + "~Some.0", "ResponseHeaderList") | need,
                    {f"!{O} is Some", f"!{oh} is Some"}, {f"{O} is Some"} | obj(O + "~Some.0", "ResponseHeaderList"))
    kinds = {"certified_response_headers": "CertifiedResponseHeaders", "response_header_exclusions": "ResponseHeaderExclusions"}
    seen = {}
    for r in runs:
        for d, t0 in by_variant(r, "Ok"):
            t = specialize(t0, d)
            v = unbox(nshow(t))
            F = {unbox(x) for x in pos(d)}
            for x in F:
                if x.startswith("all("):    # a filter that everything passes
                    v = v.replace("|{" + x[4:-1] + "}", "")
            G = {x for x in F if not x.startswith(("collected(", "OR(", "!next("))}
            m = re.fullmatch(r"Ok\(Default\((Skip|ResponseOnly|Full)\b(.*)\)\)", v, re.S)
            k = m.group(1) if m else "?"
            need, extra, value, how = set(base), set(), "", ""
            if k == "Skip":
                need |= {f"{nc} is Some", f"!{ce} is Some"}
            else:
                need |= cert | resp | (full if k == "Full" else only)
                for how, (s, must, absent, lax) in lists.items():
                    if f"DefaultResponseCertification({kinds[how]}({s}))" in v:
                        value = s
                        break
                c.ob("cel-read", f"{k}: the response's header list", bool(value), fn, f"{v}"[:1500])
                if not value:
                    continue
                need |= must
                c.ob("cel-read", f"{k}: not both response header lists", all({unbox(x) for x in pos(q)} & absent for q in dnf(d)), fn, f"accepts {how} with only {sorted(F)}"[:1500])
                extra = absent | lax
                rsp = f"response: DefaultResponseCertification({kinds[how]}({value}))"
                want = f"Ok(Default(ResponseOnly(DefaultResponseOnlyCelExpression({rsp}))))" if k == "ResponseOnly" else \
                    f"Ok(Default(Full(DefaultFullCelExpression(request: DefaultRequestCertification(headers: {chs}, query_parameters: {cqs}), {rsp}))))"
                c.ob("cel-read", f"{k}: what is read is what is written", v == want, fn, f"{v}\nexpected {want}"[:2500])
            seen[k + how] = seen.get(k + how, 0) + 1
            miss = need - F
            c.ob("cel-read", f"{k}: only for an expression that says so", not miss, fn, f"also without {sorted(miss)}"[:1500])
            more = G - need - extra
            c.ob("cel-read", f"{k}: for every expression that says so", not more, fn, f"only with {sorted(more)}"[:1500])
    for k in ("Skip", *(x + y for x in ("ResponseOnly", "Full") for y in lists)):
        c.count("cel-read", f"exits for {k}", seen.get(k, 0), 1, fn)

    c.rule("cel-write", "the text of an expression spells that structure, with the lists it holds, quoted and separated by commas")
    forms = {"create_cel_expr": "$x.0" if False else "$x~Default.0", "create_default_cel_expr": "$x",
             "create_default_full_cel_expr": "Full", "create_default_response_only_cel_expr": "ResponseOnly", "create_default_skip_cel_expr": "Skip"}
    for name, root in forms.items():
        w = c.fn(HC, name)
        r = c.run(w, names=["x"])
        n = 0
        at = [f"{root}{y}" for y in ("", ".response.0")] + [f"{root}~{k}.0.response.0" for k in ("ResponseOnly", "Full")] + ["$x.response.0"]
        for d, t in by_kind(r, at):
            kind = [k for k in ("Skip", "ResponseOnly", "Full") if root == k or f"{root} is {k}" in pos(d)]
            if len(kind) != 1:
                c.ob("cel-write", f"{name}: depends on the kind of expression", False, w, f"{nshow(t)}"[:500])
                continue
            n += 1
            written(c, w, name, kind[0], "$x" if root == kind[0] else f"{root}~{kind[0]}.0", d, t)
        c.count("cel-write", f"exits of {name}", n, 1, w)


def written(c, fn, name, kind, at, d, t):
    """The text t, for lists of up to two elements, against the expression of that kind at `at`."""
    HS, QS = f"{at}.request.headers", f"{at}.request.query_parameters"
    kinds = {"CertifiedResponseHeaders": "certified_response_headers", "ResponseHeaderExclusions": "response_header_exclusions"}
    resp = [k for k in kinds if f"{at}.response.0 is {k}" in pos(d)]
    RS = f"{at}.response.0~{resp[0]}.0" if resp else "?"
    use = {"Skip": [], "ResponseOnly": [RS], "Full": [HS, QS, RS]}[kind]
    if kind != "Skip" and len(resp) != 1:
        return c.ob("cel-write", f"{name}: {kind} depends on the kind of header list", False, fn, nshow(t)[:500])

    def lst(s, n):
        return "[" + ",".join(f'"<{s}{i}>"' for i in range(n)) + "]"

    def combos(k):
        return [()] if not k else [(n,) + x for n in range(3) for x in combos(k - 1)]
    bad = ""
    for ns in combos(len(use)):
        env = dict(zip(use, ns))
        try:
            got = spell(t, d, env)
        except Refuted:
            continue
        except Unspelt as e:
            bad = f"cannot tell the text: {e}"
            break
        got = re.sub(r"\s+", "", got)
        res = f"response_certification:ResponseCertification{{{kinds.get(resp[0]) if resp else ''}:ResponseHeaderList{{headers:{lst(RS, env.get(RS, 0))}}}}}"
        req = f"request_certification:RequestCertification{{certified_request_headers:{lst(HS, env.get(HS, 0))},certified_query_parameters:{lst(QS, env.get(QS, 0))}}}"
        want = "no_certification:Empty{}" if kind == "Skip" else \
            "certification:Certification{" + (req if kind == "Full" else "no_request_certification:Empty{}") + "," + res + "}"
        want = f"default_certification(ValidationArgs{{{want}}})"
        if got != want:
            bad = f"with lists of {ns}: {got}\nexpected {want}"
            break
    c.ob("cel-write", f"{name}: the text of {kind}{' with ' + kinds[resp[0]] if resp else ''}", not bad, fn, bad[:1800])


class Unspelt(Exception):
    pass


class Refuted(Exception):
    pass


def spell(t, d, env, cur=None, memo=None):
    """The text a term denotes when the sequences in env (by text) have so many elements; each element is '<seq i>'."""
    cur = cur or {}
    lens = {}
    for x in t_all(t) | {y for f, _ in d for y in t_all(f)}:
        if x.op == "len" and nshow(x.a[0]) in env:
            lens[x] = env[nshow(x.a[0])]
    if live(frozenset((evaluate(f, lens), v) for f, v in d)) is None:
        raise Refuted

    def holds(g):
        g = live(frozenset((evaluate(f, lens), v) for f, v in g))
        if g is None:
            return False
        for q in dnf(g):
            if all((x, v) in d or (v and x.op == "is" and (x.a[0].op == "next" or x.a[0].op == "call" and last(x.a[0].a[0]) == "next")) for x, v in q):
                return True
        if any(consistent(d, q) for q in dnf(g)):
            raise Unspelt(f"undecided {sorted(fact_strs(g))}"[:200])
        return False

    def items(seq, cur):
        """Elements of a sequence term, as texts."""
        if nshow(seq) in env:
            return [f"<{nshow(seq)}{i}>" for i in range(env[nshow(seq)])]
        if seq.op == "list":
            out, loop = [], []
            for k, x, g in seq.a[0] + (("it", None, frozenset()),):
                if k == "rep" and (not g or any(y.op == "elem" for f, _ in g for y in t_all(f)) or any(y.op == "elem" for y in subs(x))):
                    loop.append((x, g))
                    continue
                out += over(loop, cur)
                loop = []
                if x is not None and holds(g):
                    out.append(go(x, cur))
            return out
        raise Unspelt(nshow(seq)[:200])

    def over(loop, cur):
        """The items of a loop's body, once for every element of the sequence it runs over."""
        es = {y for x, g in loop for z in [x] + [f for f, _ in g] for y in t_all(z) if y.op == "elem" and nshow(y.a[0]) in env and nshow(y.a[0]) not in cur}
        seqs = {nshow(y.a[0]) for y in es}
        if not loop:
            return []
        if len(seqs) != 1:
            raise Unspelt(f"a loop over {sorted(seqs)}")
        s, out = seqs.pop(), []
        for i in range(env[s]):
            for x, g in loop:
                at = {mk("pos", y): i for y in es}
                if holds(frozenset((evaluate(f, at), v) for f, v in g)):
                    out.append(go(x, {**cur, s: i}))
        return out

    def go(x, cur):
        if x.op in ("str", "bytes"):
            return x.a[0] if x.op == "str" else bytes.fromhex(x.a[0]).decode()
        if x.op in ("int", "char"):
            return chr(int(x.a[0]))
        if x.op == "elem" and nshow(x.a[0]) in cur:
            return f"<{nshow(x.a[0])}{cur[nshow(x.a[0])]}>"
        if x.op == "phi":
            for g, y in alts(x):
                if holds(g):
                    return go(y, cur)
        if x.op == "list":
            return "".join(items(x, cur))
        if x.op == "call":
            if x.a[0] == "concat":
                return "".join(go(y, cur) for y in x.a[1])
            if x.a[0] == "concat_all":
                return "".join(items(x.a[1][0], cur))
            if last(x.a[0]) == "join":
                return go(x.a[1][1], cur).join(items(x.a[1][0], cur))
        raise Unspelt(nshow(x)[:300])
    return go(t, cur)


RULES["C24"] = c24

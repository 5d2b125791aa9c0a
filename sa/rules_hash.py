"""Rules about hashing: hash tree digests, representation-independent hashes, request and response hashes."""

from fw import *

HC, IC, RI = "ic_http_certification", "ic_certification", "ic_representation_independent_hash"


def sep(name):
    n = f"ic-hashtree-{name}".encode()
    return "x:" + (bytes([len(n)]) + n).hex()


def node_digest(c):
    fs = [f for f in c.fns(IC, "digest") if f.get("self") and "HashTreeNode" in str(f["self"])]
    if len(fs) != 1:
        raise Anchor(f"HashTreeNode::digest: found {len(fs)}")
    return fs[0]


def rec(text):
    """Text of a recursive digest call, however the function is called."""
    return f"digest({text})"


def unq(s):
    """Call texts without the path of the function."""
    return re.sub(r"(?:\b\w+::|<[^<>()]*>::)+(\w)", r"\1", s)


def c11(c):
    c.rule("tree-digest", "the digest of each node kind is SHA-256 over the length-prefixed domain separator of that kind and "
                          "then its parts, nothing more or less; a pruned node's digest is the digest it holds")
    fn = node_digest(c)
    r = c.run(fn, names=["t"])
    want = {"Empty": [sep("empty")], "Leaf": [sep("leaf"), "$t~Leaf.0"],
            "Labeled": [sep("labeled"), "$t~Labeled.0.0", rec("$t~Labeled.1")],
            "Fork": [sep("fork"), rec("$t~Fork.0.0"), rec("$t~Fork.0.1")]}
    seen = {k: 0 for k in [*want, "Pruned"]}
    for d, t in by_variant(r):
        kinds = [k for k in seen if (f"$t is {k}") in fact_strs(d)]
        for k in kinds or list(seen):
            d2 = d
            if not kinds:  # an exit that does not say which kind: must be right for all it can be
                x = [y for y in _is(r, k)]
                if x:
                    d2 = d | {(x[0], True)}
                    if not consistent(d, {(x[0], True)}):
                        continue
            t2 = specialize(t, d2)
            seen[k] += 1
            if k == "Pruned":
                c.ob("tree-digest", "Pruned", show(t2) == "$t~Pruned.0", fn, show(t2)[:600])
            else:
                h = hash_input(t2, d2)
                h = None if h is None else [unq(x) for x in h]
                c.ob("tree-digest", k, h == want[k], fn, f"hashed: {h}\nexpected: {want[k]}\nvalue: {show(t2)[:400]}")
    for k, n in seen.items():
        c.count("tree-digest", f"exits for {k}", n, 1, fn)
    # the whole tree's digest is that of its root
    top = [f for f in c.fns(IC, "digest") if f is not fn and f["self"] and "HashTree" in str(f["self"])]
    for f in top:
        r2 = c.run(f, lambda x: x["id"] == fn["id"], names=["t"])
        for d, t in by_variant(r2):
            c.ob("tree-digest", "HashTree::digest is the digest of its root", unq(show(t)) == "digest($t.root)", f, show(t)[:300])
    c.count("tree-digest", "HashTree::digest", len(top), 1, fn)
    c.rule("node-hash", "the hash functions trees are built with agree with the digest of the node they stand for")
    for name, w in (("fork_hash", [sep("fork"), "$a", "$b"]), ("labeled_hash", [sep("labeled"), "$a", "$b"]),
                    ("leaf_hash", [sep("leaf"), "$a"])):
        f = c.fn(IC, name)
        r3 = c.run(f, names=["a", "b"])
        for d, t in by_variant(r3):
            h = hash_input(t, d)
            c.ob("node-hash", name, h == w, f, f"hashed: {h}\nexpected: {w}")


def _is(r, k):
    out = set()
    for g, t in alts(r.ret):
        for f, _ in g | r.facts:
            for x in t_all(f):
                if x.op == "is" and show(x) == f"$t is {k}":
                    out.add(x)
    return out


# ---------------------------------------------------------------- representation-independent hash
def rih_map(c):
    c.rule("rih-map", "the hash of a header map is SHA-256 over hash(key) hash(value) of every entry, in the order of these pairs")
    fn = c.fn(RI, "representation_independent_hash")
    vals = [f for f in c.prog.fns.values() if f["crate"] == RI and f["kind"] != "Closure" and f["args"] == 1
            and re.fullmatch(r"&?(\w+::)*Value", f["locals"][1][0]) and "[u8; 32]" in f["locals"][0][0] and not f.get("trait")]
    if not vals:
        raise Anchor("no function hashes a Value")
    names = {f["name"] for f in vals}
    r = c.run(fn, lambda f: f["id"] in {x["id"] for x in vals}, names=["map"])
    n = 0
    for d, t in by_variant(r):
        if t.op == "call" and t.a[0] == "sha256" and not t.a[1]:
            continue  # of no entries
        n += 1
        its = pieces(t)
        bad = ""
        if its is None or len(its) != 2:
            bad = f"not a hash over pairs: {show(t)[:500]}"
        else:
            (k1, x, g1), (k2, y, g2) = its
            sx = show(x)
            if sx != "sha256(each($map).0)":
                bad = f"key part: {sx[:300]}"
            if not bad and k1 != "rep" or k2 != "rep":
                bad = "not repeated per entry"
            if not bad:
                bad = "" if y.op == "call" and last(y.a[0]) in names and show(y.a[1][0]) == "each($map).1" else f"value part: {show(y)[:300]}"
            for g in (g1, g2):
                if not bad:
                    bad = order_guard(c, g, x, y)
        c.ob("rih-map", "pairs, sorted", not bad, fn, bad)
    c.count("rih-map", "exits", n, 1, fn)
    # an array is the hash of the concatenated hashes of its elements: the recursion, wherever it is split
    c.rule("rih-value", "a string, bytes, number or array value is hashed as its bytes, its bytes, its unsigned LEB128 encoding, "
                        "the concatenation of its elements' hashes")
    m = 0
    for f in vals:
        r2 = c.run(f, names=["v"])
        for d, t in by_variant(r2):
            ks = [k for k in ("String", "Bytes", "Number", "Array") if f"$v is {k}" in fact_strs(d)]
            bad = value_hash(t, "$v", d) if ks else f"a value of any kind gives {show(t)[:200]}"
            m += 1
            c.ob("rih-value", f"{f['name']}: {ks[0] if ks else '?'}", not bad, f, bad)


def pieces(t):
    if not (t.op == "call" and t.a[0] == "sha256"):
        return None
    out = []
    for x in t.a[1]:
        for k, y, g in chunks(x):
            if y.op == "call" and y.a[0] == "concat":
                out += [(k, z, g | g2) for _, z, g2 in chunks(y)]
            else:
                out.append((k, y, g))
    return out


def value_hash(t, v, d=frozenset()):
    """'' when t is the hash of value v."""
    seen = set()
    for g, x in alts(t):
        gs = fact_strs(g | d)
        for e in dnf(g | d):
            es = fact_strs(e)
            ks = [k for k in ("String", "Bytes", "Number", "Array") if f"{v} is {k}" in es]
            if not ks:
                if x.op == "call" and x.a[1] and show(x.a[1][0]) == v:
                    continue  # handed on to another function of the value, which is checked itself
                return f"no kind for {show(x)[:200]} under {sorted(gs)[:6]}"
            k = ks[0]
            seen.add(k)
            h = hash_input(specialize(x, e), e)
            w = {"String": [f"{v}~String.0"], "Bytes": [f"{v}~Bytes.0"], "Number": [f"leb128({v}~Number.0)"]}.get(k)
            if w is not None:
                if h != w:
                    return f"{k}: hashed {h}, expected {w}"
            else:
                el = f"each({v}~Array.0)"
                if h is None or len(h) != 1 or not re.fullmatch(r"\*\w+\(" + re.escape(el) + r"\)", unq(h[0])):
                    return f"Array: hashed {h}"
    return ""


def order_guard(c, g, x, y):
    """'' when the guard says: in the order of the pairs (x, y), and nothing else."""
    ok = False
    for f, v in g:
        if f.op == "inorder" and v:
            q = f.a[0]
            if not (q.op == "call" and q.a[0] == "sorted"):
                return f"order of {show(q)[:200]}"
            seq, how = q.a[1][0], q.a[1][1] if len(q.a[1]) > 1 else None
            if how is not None and show(how) not in ("cmp(sx(), sy())", "sx()", "cmp((sx().0, sx().1), (sy().0, sy().1))"):
                return f"sorted by {show(how)[:200]}"
            its = seq.a[0] if seq.op == "list" else ()
            if len(its) != 1 or its[0][0] != "rep" or any(a.op not in ("or", "is") for a, _ in its[0][2]):
                return f"entries are left out before sorting: {show(seq)[:300]}"
            e = its[0][1]
            parts = list(e.a[3]) if e.op == "adt" else list(e.a[1]) if e.op == "call" and e.a[0] == "concat" else list(e.a[0]) if e.op in ("tuple", "array") else []
            if [unq(show(p)) for p in parts] != [unq(show(x)), unq(show(y))]:
                if not (len(parts) == 2 and unq(show(parts[0])) == unq(show(x))):
                    return f"sorted entries are {show(e)[:300]}"
            ok = True
        elif f.op == "is" and v and show(f).startswith("next(sorted("):
            continue
        elif f.op == "ovf" and not v or f.op == "lt" and v and f.a[0].op == "lv" and f.a[1].op == "len" and f.a[1].a[0].op == "call" and f.a[1].a[0].a[0] == "sorted":
            continue
        elif f.op == "or":
            continue  # one of the kinds of value
        elif f.op == "is" and v and show(f.a[0]).startswith("each($map).1"):
            continue
        else:
            return f"entries depend on {show(f)[:200]}"
    return "" if ok else "the pairs are not sorted before hashing"


# ---------------------------------------------------------------- request and response hashes
def rih(t):
    """The entries of the map a representation-independent hash is taken of, or None."""
    if t.op == "call" and last(t.a[0]) == "representation_independent_hash":
        l = t.a[1][0]
        return list(l.a[0]) if l.op == "list" else None
    return None


def first_name(x):
    """The text of a query piece before its first '=' has many spellings."""
    def f(t):
        if t.op == "fld" and t.a[1] == "Some" and t.a[0].op == "call" and last(t.a[0].a[0]) in ("pop", "next", "first"):
            q = t.a[0].a[1][0]
            if q.op == "call" and last(q.a[0]) == "take" and show(q.a[1][1]) == "1":
                q = q.a[1][0]
            if q.op == "call" and last(q.a[0]) in ("split", "splitn"):
                return call("before", q.a[1][0], q.a[1][-1])
        if t.op == "at" and show(t.a[1]) == "0" and t.a[0].op == "call" and last(t.a[0].a[0]) in ("split", "splitn"):
            return call("before", t.a[0].a[1][0], t.a[0].a[1][-1])
        if t.op == "phi":
            xs = {y for _, y in t.a[0]}
            b = [y for y in xs if y.op == "fld" and show(y).endswith("~Some.0.0") and "split_once(" in show(y)]
            if len(xs) == 2 and len(b) == 1:
                q = b[0].a[0].a[0]
                if q.op == "call" and last(q.a[0]) == "split_once" and q.a[1][0] in xs:
                    return call("before", q.a[1][0], q.a[1][1])
        return t
    return rewrite(x, f, {})


def nosplit(g):
    """A text in which there is no '=' is its own part before the first '='."""
    x = g
    for c, v in g:
        if c.op == "is" and c.a[1] == "Some" and c.a[0].op == "call" and last(c.a[0].a[0]) == "split_once" and len(c.a[0].a[1]) == 2:
            t, p = c.a[0].a[1]
            b = call("before", t, p)
            x = x - {(c, v)}
            x = frozenset((subst(a, {call("split_once.0", t, p): b} if v else {t: b}), w) for a, w in x)
    out = set()
    for c, v in x:
        if c.op == "or":
            o = or_fact([nosplit(y) for y in c.a[0]])
            if o:
                out.add((o[0], o[1] == v))
        else:
            out.add((c, v))
    return simp(frozenset(out))


HDR_OK = eqs("lower(each($request.headers).0)", "lower(each($cert.headers))")


def pair_of(x):
    """(name, kind, value) of a map entry term."""
    if x.op != "adt" or len(x.a[3]) != 2:
        return None
    k, v = x.a[3]
    if v.op != "adt":
        return show(k), None, show(v)
    return show(k), v.a[1], show(v.a[3][0])


def request_hash(c):
    c.rule("request-hash", "the request hash is SHA-256 over the representation-independent hash of exactly the certified "
                           "headers (lower-cased name, value), the method and the certified query parameters, and the hash of the body")
    fn = c.fn(HC, "request_hash")
    r = c.run(fn, c.bset(RI + ":representation_independent_hash"), ["request", "cert"])
    n = 0
    for d, t in by_variant(r, "Ok"):
        n += 1
        v = t.a[3][0] if t.op == "adt" else t
        its = pieces(v)
        if its is None or len(its) != 2 or any(g for _, _, g in its):
            c.ob("request-hash", "hash of two hashes", False, fn, show(v)[:600])
            continue
        c.ob("request-hash", "the second half is the hash of the body", show(its[1][1]) == "sha256($request.body)", fn, show(its[1][1])[:300])
        es = rih(its[0][1])
        if es is None:
            c.ob("request-hash", "the first half is the hash of the header map", False, fn, show(its[0][1])[:600])
            continue
        roles = {"method": 0, "query": 0, "header": 0}
        for k, x, g in es:
            p = pair_of(x)
            where = f"entry {show(x)[:300]} if {sorted(fact_strs(g))}"
            if p is None or p[1] != "String":
                c.ob("request-hash", "an entry of the map", False, fn, where)
            elif p[0] == "':ic-cert-method'":
                roles["method"] += 1
                c.ob("request-hash", "the method", k == "it" and not (g - d) and p[2] in ("$request.method.0", "$request.method"), fn, where)
            elif p[0] == "':ic-cert-query'":
                roles["query"] += 1
                query_entry(c, fn, k, x, g, d)
            elif p[0] == "lower(each($request.headers).0)":
                roles["header"] += 1
                bad = "" if k == "rep" and p[2] == "each($request.headers).1" else "not the header's value"
                bad = bad or same_guard(g - d, {HDR_OK: "certified"}, lambda a: a["certified"])
                c.ob("request-hash", "certified headers, names compared without case", not bad, fn, where + "\n" + bad)
            else:
                c.ob("request-hash", "an entry of the map", False, fn, where)
        for k, m in roles.items():
            c.ob("request-hash", f"one source of {k} entries", m == 1, fn, f"{m}")
    c.count("request-hash", "exits", n, 1, fn)


def query_entry(c, fn, k, x, g, d):
    U = r"(?:Uri::query\()?"
    v = x.a[3][1].a[3][0]
    q = None
    for y in subs(v):
        if y.op == "call" and last(y.a[0]) == "split" and show(y.a[1][1]) == "38":
            q = y.a[1][0]
            break
    det = f"{show(v)[:700]} if {sorted(fact_strs(g))}"
    if q is None:
        c.ob("request-hash", "the query", False, fn, det)
        return
    qs = show(q)
    src = qs.endswith("~Some.0") and "query(" in qs and "$request.url" in qs
    g = frozenset(f for f in g if f[1] or f[0].op != "is" or f[0].a[0].op != "next")
    present = [f for f in g if f[1] and f[0].op == "is" and f[0].a[1] == "Some" and show(f[0].a[0]) + "~Some.0" == qs]
    c.ob("request-hash", "the query is the request's, and present whenever it has one", src and len(g - d) <= 1 and (present or not g - d), fn, det)
    good = False
    why = det
    if v.op == "call" and last(v.a[0]) == "join" and show(v.a[1][1]) == "'&'" and v.a[1][0].op == "list" and len(v.a[1][0].a[0]) == 1:
        kk, y, gg = v.a[1][0].a[0][0]
        el = f"each(split({qs}, 38))"
        if kk == "rep" and show(y) == el:
            gg = nosplit(frozenset((first_name(a), b) for a, b in gg))
            gg = frozenset((a, b) for a, b in gg if not (b and a.op == "is" and a.a[1] == "Some" and any(
                s_ in show(a) for s_ in ("pop(", "next(", "before(", "at(", "take("))))
            nm = {eqs(f"lower(before({el}, 61))", "lower(each($cert.query_parameters))"): "certified"}
            why = same_guard(gg, nm, lambda a: a["certified"])
            good = not why
            why += "\n" + det
    c.ob("request-hash", "the certified query parameters, in their order, joined again", good, fn, why)


RC = "$cert.0"


def filter_names(el="each($response.headers)"):
    h = f"lower({el}.0)"

    def e(o):
        return [eqs(h, o)]
    nm = {f"{RC} is CertifiedResponseHeaders": "inclusive", f"{RC} is ResponseHeaderExclusions": "exclusive"}
    for o, k in ((f"lower(each({RC}~CertifiedResponseHeaders.0))", "included"), (f"lower(each({RC}~ResponseHeaderExclusions.0))", "excluded"),
                 ("'ic-certificate'", "certificate"), ("'ic-certificateexpression'", "expression")):
        for x in e(o):
            nm[x] = k
    return nm


def keep_header(a):
    return not a["certificate"] and (a["expression"] or a["inclusive"] and a["included"] or a["exclusive"] and not a["excluded"])


def header_given(a):
    return a["inclusive"] != a["exclusive"] and not (a["certificate"] and a["expression"])


def header_filter(c):
    c.rule("header-filter", "the headers that enter a response hash are those the certification includes (or does not exclude) "
                            "and always the certificate expression header, never the certificate header; names are lower-cased "
                            "and compared without case; the certificate header is kept aside")
    fn = c.fn(HC, "filter_response_headers")
    r = c.run(fn, names=["response", "cert"])
    n = 0
    for d, t in by_variant(r):
        n += 1
        hs = get_field(t, "headers")
        bad = entries(hs, d, lambda x: (show(x.a[3][0]), show(x.a[3][1])) if x.op == "adt" and len(x.a[3]) == 2 else None)
        c.ob("header-filter", "the headers kept", not bad, fn, bad)
        ct = get_field(t, "certificate")
        vals = [(g - d, show(x)) for g, x in alts(ct)]
        kept = {f"Some({e}.1)": e for e in ("each($response.headers)", "earlier($response.headers)")}
        some = [(g, kept[x]) for g, x in vals if x in kept]
        bad = "" if some and all(x == "None" or x in kept for _, x in vals) else show(ct)[:500]
        for g, el in some:
            g = frozenset(f for f in g if not walks(f))
            bad = bad or same_guard(g, filter_names(el), lambda a: a["certificate"], header_given)
        c.ob("header-filter", "the certificate header kept aside is the certificate header", not bad, fn, bad)
    c.count("header-filter", "exits", n, 1, fn)


def get_field(t, name):
    """Field of a struct value, through updates and alternatives."""
    if t.op == "upd":
        base, pr, val = t.a[0], t.a[1], t.a[2]
        if pr == (None, name) or (isinstance(pr, tuple) and pr and pr[-1] == name):
            return val
        return get_field(base, name)
    if t.op == "phi":
        return mkphi([(g | g2, x) for g, y in t.a[0] for g2, x in alts(get_field(y, name))])
    return field(t, name)


def walks(f):
    """That there is (not) a next header, or a next one of the headers kept."""
    c, _ = f
    if c.op != "is" or c.a[0].op != "next":
        return False
    q = c.a[0].a[0]
    return show(q) == "$response.headers" or q.op == "list" and [k for k, _, _ in q.a[0]] == ["rep"] and \
        "each($response.headers)" in show(q.a[0][0][1])


def entries(hs, d, pair):
    if hs.op != "list" or len(hs.a[0]) != 1 or hs.a[0][0][0] != "rep":
        return f"not one entry per header: {show(hs)[:600]}"
    k, x, g = hs.a[0][0]
    if pair(x) != ("lower(each($response.headers).0)", "each($response.headers).1"):
        return f"entry {show(x)[:300]}"
    # that there is a header is no condition on it
    g = frozenset(f for f in g | d if not walks(f))
    return same_guard(g, filter_names(), keep_header, lambda a: header_given(a) and all(
        a[filter_names()[show(f)]] == v for f, v in d if show(f) in filter_names()))


def response_hash(c):
    c.rule("response-hash", "the response hash is SHA-256 over the representation-independent hash of exactly the filtered "
                            "headers and the status code, and the hash of the body")
    fn = c.fn(HC, "response_hash")
    r = c.run(fn, c.bset(RI + ":representation_independent_hash"), ["response", "cert", "body_hash"])
    n = 0
    for d, t in by_variant(r):
        n += 1
        its = pieces(t)
        if its is None or len(its) != 2 or any(g for _, _, g in its):
            c.ob("response-hash", "hash of two hashes", False, fn, show(t)[:600])
            continue
        body = [(show(x), sorted(fact_strs(g - d))) for g, x in alts(its[1][1])]
        ok = all(x == "$body_hash~Some.0" and ("$body_hash is Some" in g or "$body_hash is Some" in fact_strs(d)) or
                 x == "sha256($response.body)" and ("!$body_hash is Some" in g or "!$body_hash is Some" in fact_strs(d)) for x, g in body)
        c.ob("response-hash", "the second half is the given hash of the body, or the hash of the body", ok, fn, str(body)[:600])
        es = rih(its[0][1])
        if es is None:
            c.ob("response-hash", "the first half is the hash of the header map", False, fn, show(its[0][1])[:600])
            continue
        map_entries(c, fn, es, d, "StatusCode::as_u16($response.status_code.0)")
    c.count("response-hash", "exits", n, 1, fn)
    # the same map when the verifier asks for the headers' hash alone
    f2 = c.fn(HC, "response_headers_hash")
    r = c.run(f2, c.bset(RI + ":representation_independent_hash"), ["status", "filtered"])
    for d, t in by_variant(r):
        es = rih(t) or []
        ps = sorted((k, *(pair_of(x) or ("?",)), tuple(sorted(fact_strs(g - d)))) for k, x, g in es)
        want = sorted([("rep", "each($filtered.headers).0", "String", "each($filtered.headers).1", ()), ("it", "':ic-cert-status'", "Number", "$status", ())])
        c.ob("response-hash", "response_headers_hash: every filtered header and the status code", ps == want, f2, f"{ps}\nexpected {want}")


def map_entries(c, fn, es, d, status):
    st = hd = 0
    for k, x, g in es:
        p = pair_of(x)
        where = f"entry {show(x)[:300]} if {sorted(fact_strs(g))}"[:1200]
        if p and p[0] == "':ic-cert-status'":
            st += 1
            c.ob("response-hash", "the status code", k == "it" and not (g - d) and p[1:] == ("Number", status), fn, where)
        elif p and p[0] == "lower(each($response.headers).0)" and p[1] == "String":
            hd += 1
            bad = entries(mklist([(k, x, g)]), d, lambda y: (pair_of(y)[0], pair_of(y)[2]))
            c.ob("response-hash", "the filtered headers", not bad, fn, where + "\n" + bad)
        else:
            c.ob("response-hash", "an entry of the map", False, fn, where)
    c.ob("response-hash", "one status entry and one source of header entries", (st, hd) == (1, 1), fn, f"{st} {hd}")


RULES = {"C11": c11, "C16": rih_map, "C17": request_hash, "C18": response_hash, "C19": header_filter}

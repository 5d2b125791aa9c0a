"""Rules about the verifier: verify_request_response_pair and what it calls."""

import re
from itertools import islice, product

from fw import *

RV, HC, IC, CV = "ic_response_verification", "ic_http_certification", "ic_certification", "ic_certificate_verification"

ENTRY_BOUNDARY = [
    CV + ":verify", RV + ":CertificateHeader:from", IC + ":HashTree:lookup_path", IC + ":HashTree:lookup_subtree",
    IC + ":HashTree:digest", HC + ":request_hash", HC + ":filter_response_headers", HC + ":response_headers_hash",
    HC + ":response_hash", HC + ":more_specific_wildcards_for", HC + ":is_wildcard_path_valid_for_request_path",
    HC + ":HttpRequest:get_path", "ic_representation_independent_hash:hash",
]


def cel_fns(c):
    """Functions of the verifier that turn text into a certification expression."""
    return {f["id"] for f in c.prog.fns.values() if f["crate"] == RV and f["kind"] != "Closure"
            and "CelExpression" in f["locals"][0][0]}


def decoders(c):
    """Functions of the verifier that undo a content encoding: they take a body and the encoding and give the bytes."""
    r = []
    for f in c.prog.fns.values():
        if f["crate"] == RV and f["kind"] != "Closure" and f["args"] == 2 and f["locals"][0][0].startswith("std::result::Result<std::vec::Vec<u8>"):
            ts = [re.sub(r"'\{?\w+\}?\s?", "", t[0]) for t in f["locals"][1:3]]
            if any(t.startswith("std::option::Option<&") and "str" in t for t in ts) and any(t in ("&[u8]", "& [u8]") for t in ts):
                r.append(f)
    return r


def decoding(dec, x):
    """(body, encoding) where x calls one of the decoders."""
    if x.op != "call" or len(x.a[1]) != 2:
        return None
    for f in dec:
        if x.a[0] in (f["npath"], f["path"]):
            a = x.a[1]
            return (a[1], a[0]) if "Option" in f["locals"][1][0] else (a[0], a[1])
    return None


class Exit:
    def __init__(self, facts, info, d, view):
        self.f, self.info, self.d, self.v = facts, info, d, view
        self.s = show(info)


_entry = {}


def by_encoding(dec, d, t):
    """A path, once per way in which the body's encoding is found on it."""
    encs = {decoding(dec, x)[1] for k, _ in d for x in t_all(k) if decoding(dec, x)}
    out = [d]
    for enc in sorted(encs, key=lambda x: x.n):
        if enc.op == "phi":
            out = [o | g2 for o in out for g, _ in enc.a[0] for g2 in dnf(g) if consistent(o, g2)]
    return [(o, t) for o in out]


def entry(c):
    """Success exits of verify_request_response_pair by version: {1: [Exit], 2: [Exit], None: [Exit]}."""
    if "r" in _entry:
        return _entry["r"]
    fn = c.fn(RV, "verify_request_response_pair")
    names = ["request", "response", "canister_id", "now", "offset", "root_key", "min_version"]
    if fn["args"] != 7:
        raise Anchor("verify_request_response_pair takes seven arguments")
    bs = c.bset(*ENTRY_BOUNDARY)
    dec = decoders(c)
    cel = cel_fns(c)
    if not cel:
        raise Anchor("no function of the verifier yields a CelExpression")
    r = c.run(fn, lambda f: bs(f) or f["id"] in cel or f in dec, names)
    by = {1: [], 2: [], None: []}
    seen = set()
    for d, t in (x for d, t in exits_dnf(r, "Ok") for x in by_encoding(dec, d, t)):
        v = View()
        v.norm = [flat_lookup, last_char]
        info = specialize(t.a[3][0] if t.op == "adt" else t, d)
        d = frozenset((specialize(x, d) if x.op != "or" else x, val) for x, val in d)
        name_headers(v, d, info)
        d = one_variant(d)
        f = v.facts(d)
        if any("!" + x in f for x in f):
            continue  # two spellings of one condition disagree: not a path
        e = Exit(f, v.t(info), d, v)
        k = (frozenset(f), e.s)
        if k in seen:
            continue
        seen.add(k)
        ver = 1 if "eq(1, H.version)" in f else 2 if "eq(2, H.version)" in f else None
        by[ver].append(e)
    _entry["r"] = fn, by
    _entry["e"] = r, dec
    return fn, by


LOOKED_UP = ("Found", "Absent", "Unknown", "Error")


def one_variant(d):
    """A lookup that gives one variant gives no other."""
    return d | {(mk("is", k.a[0], x), False) for k, val in d if val and k.op == "is" and k.a[1] in LOOKED_UP and
                k.a[0].op == "call" and last(k.a[0].a[0]).startswith("lookup_") for x in LOOKED_UP[:2] if x != k.a[1]}


def instances(d):
    """What holds of every element holds of those a path already speaks of."""
    known = set().union(*[free_elems(c) for c, _ in d if c.op != "all"])
    more = set()
    for c, v in d:
        if c.op == "all" and c.a[0].op == "or":
            es = sorted(free_elems(c.a[0]) - known, key=lambda x: x.n)
            for m in islice(product(*[[k for k in sorted(known, key=lambda x: x.n) if k.a[0] is x.a[0]] for x in es]), 8):
                more.add((subst(c.a[0], dict(zip(es, m))), v))
    return dnf(simp(d | more)) if more else [d]


def refusals(c):
    """Error exits of verify_request_response_pair."""
    fn, _ = entry(c)
    r, dec = _entry["e"]
    out, seen = [], set()
    for d, t in ((d3, t) for d, t in exits_dnf(r, "Err") for d2, _ in by_encoding(dec, d, t) for d3 in instances(d2)):
        v = View()
        v.norm = [flat_lookup, last_char]
        info = specialize(t.a[3][0] if t.op == "adt" else t, d)
        d = frozenset((specialize(x, d) if x.op != "or" else x, val) for x, val in d)
        name_headers(v, d, info)
        d = one_variant(d)
        f = v.facts(d)
        if any("!" + x in f for x in f):
            continue
        e = Exit(f, v.t(info), d, v)
        k = (frozenset(f), e.s)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return fn, out


def name_headers(v, d, t):
    """Names for what the rules speak of: header values, the parsed certificate header H, URLPATH, CEL."""
    allt = set(t_all(t))
    for c, _ in d:
        allt |= t_all(c)
    for c, val in sorted(d, key=lambda x: x[0].n):
        if val and c.op == "eq":
            k = [x for x in c.a if x.op == "str"]
            o = [x for x in c.a if x.op != "str"]
            if len(k) == 1 and o[0].op == "call" and o[0].a[0] == "lower":
                n = o[0].a[1][0]
                if n.op == "fld" and n.a[2] == "0" and n.a[0].op == "elem" and show(n.a[0].a[0]) == "$response.headers":
                    v.names[mk("fld", n.a[0], n.a[1], "1")] = mk("abbr", f"HDR({k[0].a[0]})")
    v.memo = {}
    for h in sorted((x for x in allt if x.op == "call" and x.a[0].endswith("CertificateHeader::from")), key=lambda x: x.n):
        if v.s(h.a[1][0]) == "HDR(ic-certificate)":
            v.name(v.t(mk("fld", h, "Ok", "0")), "H")
    for x in allt:
        if x.op == "call" and x.a[0].endswith("HttpRequest::get_path") and show(x.a[1][0]) == "$request":
            v.name(v.t(mk("fld", x, "Ok", "0")), "URLPATH")
    for x in allt:
        if x.op == "fld" and x.a[1] == "Default":
            y = v.t(x)
            if y.op == "fld" and y.a[0].op == "fld" and y.a[0].a[1] == "Ok" and "HDR(ic-certificateexpression)" in show(y):
                v.name(y, "CEL")


WITNESS = "HashTree::lookup_path(H.certificate.tree, ['canister', $canister_id, 'certified_data'])"
HASH = "ic_representation_independent_hash::hash"


def need(c, rule, fn, exits, items, what):
    """Every success exit carries every fact of items."""
    c.count(rule, f"{what} success paths", len(exits), 1, fn)
    for label, fact in items:
        bad = [e for e in exits if not (fact(e) if callable(fact) else fact in e.f)]
        det = ""
        if bad:
            missing = fact if isinstance(fact, str) else label
            near = sorted(x for x in bad[0].f if len(x) < 500)[:40]
            det = (f"{len(bad)} of {len(exits)} {what} success paths do not require: {missing}\n  value: {bad[0].s[:300]}\n  "
                   "one of them requires only: " + "\n    ".join(near))
        c.ob(rule, f"{what}: {label}", not bad, fn, det)


COMMON = [
    ("the certificate was parsed from the ic-certificate response header", "CertificateHeader::from(HDR(ic-certificate)) is Ok"),
    ("the certificate was verified for this canister, root key, time and offset",
     "ic_certificate_verification::verify(H.certificate, $canister_id, $root_key, $now, $offset) is Ok"),
    ("the certificate has certified data for this canister", WITNESS + " is Found"),
    ("the certified data equals the digest of the header's tree", eqs(WITNESS + "~Found.0", "HashTree::digest(H.tree)")),
]

EH = f"{HASH}(HDR(ic-certificateexpression))"
XPATH = "H.expr_path~Some.0"


def is_skip(e):
    return "CEL is Skip" in e.f


def pair_fact(e):
    """The hash pair of this exchange ends in the empty leaf of the certified tree."""
    if "CEL is Full" in e.f:
        rq, resp = "request_hash::request_hash($request, CEL~Full.0.request)~Ok.0", "CEL~Full.0.response"
    elif "CEL is ResponseOnly" in e.f:
        rq, resp = "''", "CEL~ResponseOnly.0.response"
    else:
        return None
    filt = f"response_hash::filter_response_headers($response, {resp})"
    hh = f"response_hash::response_headers_hash(StatusCode::as_u16($response.status_code.0), {filt})"
    rs = {f"{HASH}(concat({hh}, {HASH}($response.body)))",
          f"response_hash::response_hash($response, {resp}, '')", f"response_hash::response_hash($response, {resp}, None)",
          f"response_hash::response_hash($response, {resp}, Some({HASH}($response.body)))"}
    paths = [f"HashTree::lookup_subtree(H.tree, [*each({XPATH}), {EH}, {rq}, {x}])" for x in rs]
    out = []
    for p in paths:
        n = p + "~Found.0.root"
        out += [{p + " is Found", eqs(n, "HashTreeNode::Leaf('')")}] + \
            [{p + " is Found", n + " is Leaf", x} for x in (eqs("0", f"len({n}~Leaf.0)"), eqs("''", f"{n}~Leaf.0"))]
    return out


def has_pair(e):
    return any(p <= e.f for p in pair_fact(e) or ())


def c01(c):
    c.rule("v2-gate", "every success exit of verify_request_response_pair that reports version 2 lies behind all of these "
                      "checks, made on these values")
    fn, by = entry(c)
    ex = by[2]
    c.ob("v2-gate", "every success exit knows the header's version", not by[None], fn,
         f"{len(by[None])} success paths without a version test" + (": " + by[None][0].s[:400] if by[None] else ""))
    need(c, "v2-gate", fn, ex, COMMON + [
        ("the header carries an expression path", "H.expr_path is Some"),
        ("the certificate expression header is part of the response", "eq('ic-certificateexpression', lower(each($response.headers).0))"),
        ("the tree contains the expression path",
         lambda e: f"HashTree::lookup_subtree(H.tree, {XPATH}) is Found" in e.f),
        ("the tree contains the hash of the certificate expression header at the expression path",
         lambda e: f"HashTree::lookup_subtree(H.tree, [*each({XPATH}), {EH}]) is Found" in e.f or has_pair(e)),
        ("the certification was parsed from the certificate expression header",
         lambda e: sum(x in e.f for x in ("CEL is Skip", "CEL is ResponseOnly", "CEL is Full")) == 1),
    ], "v2")
    rest = [e for e in ex if not is_skip(e)]
    need(c, "v2-gate", fn, rest, [
        ("the certified tree ends at [expression path, expression hash, request hash or '', response hash] in the empty leaf",
         has_pair),
    ], "certified v2")
    full = [e for e in rest if "CEL is Full" in e.f]
    c.count("v2-gate", "full-certification success paths", len(full), 1, fn)
    c.count("v2-gate", "response-only success paths", len([e for e in rest if "CEL is ResponseOnly" in e.f]), 1, fn)


ASSET = "HashTree::lookup_path(H.tree, ['http_assets', URLPATH])"
INDEX = "HashTree::lookup_path(H.tree, ['http_assets', '/index.html'])"
ENCODED = "eq('content-encoding', lower(each($response.headers).0))"


def bodies(e, dec):
    """Texts of the body hashes acceptable on this path: of the body as it is, when it has an encoding, and decoded."""
    r = {}
    for x in set().union(*[t_all(k) for k, _ in e.d]):
        if x.op == "call" and x.a[0] == "ic_representation_independent_hash::hash":
            a = e.v.t(x.a[1][0])
            if show(a) == "$response.body" and ENCODED in e.f:
                r[show(mk("call", x.a[0], (a,)))] = "raw"
            if a.op == "fld" and a.a[1] == "Ok" and decoding(dec, a.a[0]):
                b, enc = decoding(dec, a.a[0])
                encs = show(enc)
                if show(b) == "$response.body" and (
                        encs == "Some(HDR(content-encoding))" or encs == "None" and
                        any(f.startswith("!") and "'content-encoding'" in f for f in e.f)):
                    r[show(e.v.t(x))] = "decoded"
    return r


def c02(c):
    c.rule("v1-gate", "every success exit of verify_request_response_pair that reports version 1 lies behind all of these checks")
    fn, by = entry(c)
    dec = decoders(c)
    ex = by[1]
    c.ob("v1-gate", "every success exit knows the header's version", not by[None], fn, f"{len(by[None])} success paths without a version test")
    def body_ok(e):
        for h in bodies(e, dec):
            if {ASSET + " is Found", eqs(ASSET + "~Found.0", h)} <= e.f:
                return True
            if {INDEX + " is Found", eqs(INDEX + "~Found.0", h), "!" + ASSET + " is Found"} <= e.f:
                return True
        return False
    need(c, "v1-gate", fn, ex, COMMON + [
        ("the certified hash at the request path (or at /index.html when the request path is not in the tree) equals the "
         "hash of the decoded body, or of the raw body when a content encoding is declared", body_ok),
    ], "v1")


SEG = ("'http_expr', *each(split(URLPATH, 47))|{!eq(0, len(each(split(URLPATH, 47))))}, "
       "*''|{<impl str>::ends_with(URLPATH, 47)}")
EXACT = eqs(XPATH, f"[{SEG}, '<$>']")
EXACT_ABSENT = f"HashTree::lookup_subtree(H.tree, [{SEG}, '<$>']) is Absent"


def covers(x):
    """Text x: the header's wildcard covers the request."""
    return x.startswith("wildcard_paths::is_wildcard_path_valid_for_request_path(") and XPATH in x and \
        re.fullmatch(r"wildcard_paths::is_wildcard_path_valid_for_request_path\((.*), \[" + re.escape(SEG) + r"\]\)", x) is not None


def more_specific(k, e):
    """Condition k: a more specific wildcard is absent from the tree."""
    if k.op != "is" or k.a[1] != "Absent":
        return False
    q = k.a[0]
    if q.op != "call" or last(q.a[0]) != "lookup_subtree" or e.v.s(q.a[1][0]) != "H.tree":
        return False
    if not e.v.s(q.a[1][1]).startswith("['http_expr', *each("):
        return False
    return any(y.op == "call" and last(y.a[0]) == "more_specific_wildcards_for" and
               [e.v.s(a) for a in y.a[1]] == [f"[{SEG}]", XPATH] for y in subs(q.a[1][1]))


def reason(e, dec):
    """Why the response is rightly refused on this path; None when it is not."""
    no = {x[1:] for x in e.f if x.startswith("!")}
    yes = {x for x in e.f if not x.startswith("!")}

    def missing(h):
        return any(f"'{h}'" in x and "$response.headers" in x and x.startswith(("mapget", "all(", "next(")) for x in no)
    if missing("ic-certificate") or any(x.startswith("response_hash::filter_response_headers(") and x.endswith(").certificate is Some") for x in no):
        return "no certificate header"
    if "CertificateHeader::from(HDR(ic-certificate)) is Ok" in no:
        return "the certificate header cannot be read"
    if "lt(H.version, $min_version)" in yes:
        return "a version below the caller's minimum"
    if {"eq(1, H.version)", "eq(2, H.version)"} <= no or {"lt(H.version, 1)", "lt(2, H.version)"} & yes or "lt(H.version, 3)" in no:
        return "a version that does not exist"
    if "ic_certificate_verification::verify(H.certificate, $canister_id, $root_key, $now, $offset) is Ok" in no:
        return "the certificate does not verify"
    if WITNESS + " is Found" in no or eqs(WITNESS + "~Found.0", "HashTree::digest(H.tree)") in no:
        return "the tree is not the certified one"
    if "HttpRequest::get_path($request) is Ok" in no:
        return "the request has no path"
    if "eq(1, H.version)" in yes:
        hs = bodies(e, dec)
        for x, val in e.d:
            if not val and x.op == "is" and x.a[1] == "Ok" and decoding(dec, x.a[0]) and show(e.v.t(decoding(dec, x.a[0])[0])) == "$response.body":
                return "the body cannot be decoded"

        def unlike(h):
            return ASSET + " is Found" in yes and eqs(ASSET + "~Found.0", h) in no or \
                ASSET + " is Found" in no and (INDEX + " is Found" in no or eqs(INDEX + "~Found.0", h) in no)
        if {ASSET + " is Found", INDEX + " is Found"} <= no:
            return "the tree has neither the path nor the index"
        if {hs[h] for h in hs if unlike(h)} == ({"raw", "decoded"} if ENCODED in yes else {"decoded"}):
            return "the body is not the certified one"
    if "eq(2, H.version)" not in yes:
        return None
    if "H.expr_path is Some" in no or missing("ic-certificateexpression"):
        return "no expression or expression path"
    if any("HDR(ic-certificateexpression)" in x and x.endswith(" is Ok") and "lookup" not in x for x in no):
        return "the expression cannot be read"

    def ends(s, fs):
        return any(XPATH in x and f"'{s}'" in x and "URLPATH" not in x and "lookup" not in x for x in fs)
    if any(x.startswith("HashTree::lookup_subtree(H.tree, ") and x.endswith(" is Found") and
           x[33:-10] in (XPATH, f"[*each({XPATH})]", f"[*each({XPATH}), {EH}]") for x in no):
        return "the tree has no such expression path, or not with this expression"
    if f"eq(0, len({XPATH}))" in yes or f"lt(0, len({XPATH}))" in no or \
            any(XPATH in x and "'http_expr'" in x and "URLPATH" not in x and "lookup" not in x for x in no):
        return "an expression path without its prefix"
    if ends("<$>", yes) and ends("<*>", yes):
        return "(two ends at once: no such path)"
    if ends("<$>", no) and ends("<*>", no):
        return "an expression path without an end"
    if not ends("<*>", yes) and EXACT in no:
        return "an exact expression path of another request path"
    if ends("<*>", yes):
        if any(map(covers, no)):
            return "a wildcard of other request paths"
        if EXACT_ABSENT in no:
            return "the exact path might exist"
        if any(not val and more_specific(k, e) for k, val in e.d):
            return "a more specific wildcard might exist"
    if "request_hash::request_hash($request, CEL~Full.0.request) is Ok" in no:
        return "the request cannot be hashed"
    for p in pair_fact(e) or ():
        f = next(x for x in p if x.endswith(" is Found"))
        if f in no or f in yes and len((p - {f}) & no) > 0:
            return "the tree does not have the pair of hashes"
    return None


def c44(c):
    c.rule("refusals", "every error exit of verify_request_response_pair lies behind the failure of a check that success needs, made on "
                       "the same values")
    fn, ex = refusals(c)
    dec = _entry["e"][1]
    n = {}
    bad = []
    for e in ex:
        w = reason(e, dec)
        n[w] = n.get(w, 0) + 1
        if w is None:
            bad.append(e)
    for w in sorted(x for x in n if x):
        c.count("refusals", f"error exits because: {w}", n[w], 1, fn)
    c.count("refusals", "error exits", len(ex), 10, fn)
    det = ""
    if bad:
        e = min(bad, key=lambda e: len(e.f))
        det = f"{len(bad)} of {len(ex)} error exits are behind no failed check; one gives {e.s[:200]} under:\n    " + "\n    ".join(
            x[:400] for x in sorted(e.f))
    c.ob("refusals", "a response is refused only for a check it fails", not bad, fn, det)


def c07(c):
    c.rule("returned-response", "what a success exit hands back is exactly what its checks certified")
    fn, by = entry(c)
    n = 0
    for e in by[1] + by[2] + by[None]:
        info = e.info
        resp, ver = field(info, "response"), field(info, "verification_version")
        v = show(ver)
        inst = None
        if e in by[1]:
            inst = "version 1 returns the body alone"
            good = v == "1" and resp.op == "adt" and resp.a[1] == "Some" and show(field(resp.a[3][0], "status_code")) == "None" \
                and field(resp.a[3][0], "headers") is EMPTY and show(field(resp.a[3][0], "body")) == "$response.body"
        elif is_skip(e):
            inst = "skipped certification returns no response"
            good = v == "2" and show(resp) == "None"
        else:
            inst = "certified version 2 returns status, certified headers, certificate header and body"
            kind = "Full" if "CEL is Full" in e.f else "ResponseOnly"
            filt = f"response_hash::filter_response_headers($response, CEL~{kind}.0.response)"
            good = v == "2" and resp.op == "adt" and resp.a[1] == "Some"
            if good:
                x = resp.a[3][0]
                hd = show(field(x, "headers"))
                status = {f"Some({w})" for w in ("$response.status_code.0", "StatusCode::as_u16($response.status_code.0)")}
                good = show(field(x, "status_code")) in status and show(field(x, "body")) == "$response.body" \
                    and hd == f"[*each({filt}.headers), ('IC-Certificate', {filt}.certificate~Some.0)]"
        n += 1
        if not any(o[1] == inst and not o[2] for o in c.obligations):
            c.ob("returned-response", inst, good, fn, f"returned: {e.s[:1500]}\nunder: " + "; ".join(sorted(x for x in e.f if len(x) < 80))[:600])
    c.count("returned-response", "success exits", n, 3, fn)


def c08(c):
    c.rule("version-policy", "a success exit reports the version of the header it verified, which is 1 or 2 and not below the minimum asked for")
    fn, by = entry(c)
    allx = by[1] + by[2] + by[None]
    need(c, "version-policy", fn, allx, [
        ("the header's version is not below the requested minimum", "!lt(H.version, $min_version)"),
        ("the header's version is 1 or 2", lambda e: "eq(1, H.version)" in e.f or "eq(2, H.version)" in e.f),
        ("the reported version is the header's version",
         lambda e: show(field(e.info, "verification_version")) in
         ({"1", "H.version"} if "eq(1, H.version)" in e.f else {"2", "H.version"} if "eq(2, H.version)" in e.f else {"H.version"})),
        ("nothing of the version 1 rules is used for a version 2 header",
         lambda e: "eq(2, H.version)" not in e.f or not any("'http_assets'" in x for x in e.f)),
    ], "all")


def c09(c):
    """Expression path: exact for the request, or a wildcard with every more specific candidate proved absent."""
    c.rule("expr-path", "a version 2 success exit accepts the header's expression path only when it is the request's exact "
                        "path, or a wildcard over it with the exact path and every more specific wildcard proved absent")
    fn, by = entry(c)
    exact = EXACT

    def specific(e):
        f = e.f
        if exact in f:
            return True
        if EXACT_ABSENT not in f:
            return False
        return any(map(covers, f)) and absent_all(e)

    def absent_all(e):
        return any(val and k.op == "all" and more_specific(k.a[0], e) for k, val in e.d)

    def suffix(e):
        return exact in e.f or any(f"<impl [T]>::ends_with({XPATH}, ['{m}'])" in e.f for m in ("<*>", "<$>")) or \
            any("'<*>'" in x and XPATH in x and not x.startswith("!") for x in e.f)
    need(c, "expr-path", fn, by[2], [
        ("it is the exact path of the request, or the exact path is absent, the wildcard covers the request and every more "
         "specific wildcard is absent", specific),
        ("an expression path that ends in the exact terminator is accepted only as the request's exact path",
         lambda e: exact in e.f or f"!<impl [T]>::ends_with({XPATH}, ['<$>'])" in e.f or f"<impl [T]>::ends_with({XPATH}, ['<*>'])" in e.f
         and not f"<impl [T]>::ends_with({XPATH}, ['<$>'])" in e.f),
        ("the accepted path itself is in the certified tree", f"HashTree::lookup_subtree(H.tree, {XPATH}) is Found"),
    ], "v2")


RULES = {"C01": c01, "C02": c02, "C07": c07, "C08": c08, "C09": c09, "C44": c44}

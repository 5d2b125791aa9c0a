"""Rules about the requests and responses that callers build, the expressions they build, and the headers written for them."""

import re

from fw import *
from rules_http import by_self
from rules_nested import alternatives

HC = "ic_http_certification"
IC = "ic_certification"
NO = lambda f: False
RESP = ("status_code", "headers", "body", "upgrade")
REQ = ("method", "url", "headers", "body", "certificate_version")
MESSAGES = {"HttpResponse": (RESP, {"HttpUpdateResponse": RESP[:3]}), "HttpRequest": (REQ, {"HttpUpdateRequest": REQ[:4]})}
OPTIONAL = ("upgrade", "certificate_version")


def par(name, i=1):
    return mk("param", "", name, i)


class Api:
    """Public functions applied to terms, as a caller composes them."""

    def __init__(self, c):
        self.c = c

    def fn(self, name, ty, trait=None):
        return by_self(self.c, HC, name, ty, trait)

    def __call__(self, name, ty, *args, trait=None):
        TM.LV.clear()
        f = name if isinstance(name, dict) else self.fn(name, ty, trait)
        return self.c.run(f, NO, args=list(args)).ret

    def frm(self, ty, of):
        fs = [f for f in self.c.fns(HC, "from") if re.search(r"(^|::)" + ty + r"(<|$)", str(f.get("self") or "")) and re.search(r"From<[^<>]*\b" + of + r"\b", f["path"])]
        if len(fs) != 1:
            raise Anchor(f"From<{of}> for {ty}: found {len(fs)}")
        return fs[0]


def settled(t):
    """A value in which what was never set is at its default."""
    d = frozenset((mk("is", x.a[0], "Some"), False) for x in own(t) if x.op == "fld" and x.a[1] == "Some" and _unset(x.a[0])) | \
        frozenset((k, False) for x in own(t) if x.op == "phi" for g, _ in x.a[0] for e in dnf(g) for k, v in e if k.op == "is" and k.a[1] == "Some" and _unset(k.a[0]))
    t = specialize(t, d) if d else t
    return mk("abbr", "unset") if _unset(t) else t


def _unset(t):
    return t.op == "fld" and t.a[0].op == "call" and last(t.a[0].a[0]) == "default" or t in (TM.NONE, EMPTY) or show(t) in ("b[]", "''")


def value(t):
    """What an accessor shows, wrappers of one value aside."""
    s = show(t)
    return re.sub(r"(\$\w+)\.0$", r"\1", s)


def c29(c):
    api = Api(c)
    c.rule("message-hold", "each field of a built message is what was last given for it, whatever else was set before or after, and its default otherwise")
    c.rule("message-convert", "a conversion between kinds of message keeps every field both have")
    for ty, (fields, updates) in MESSAGES.items():
        b = ty + "Builder"
        bf = api.fn("new", b)
        p = {f: par("p_" + f, i + 1) for i, f in enumerate(fields)}
        fresh = api("new", b)
        full = fresh
        for f in fields:
            full = api("with_" + f, b, full, p[f])
        outs = [("build", ty, fields)] + [("build_update", u, fs) for u, fs in updates.items()]

        def shows(what, builder, want, rule="message-hold", outs=outs, bf=bf):
            for build, to, fs in outs:
                m = api(build, b, builder)
                for f in fs:
                    got = settled(api(f, to, m))
                    c.ob(rule, f"{to}: {f} {what}", want(f, got), api.fn(f, to), f"is {show(got)[:300]}")

        def held(ps):
            def want(f, got):
                w = f"${ps[f].a[1]}" if isinstance(ps[f].a[1], str) else show(ps[f])
                return value(got) == (f"Some({w})" if f in OPTIONAL else w)
            return want

        def default(f, got):
            s = show(got)
            return {"status_code": bool(re.search(r"\b200\b|\bOK\b", s)), "method": bool(re.search(r"(?i)\bget\b", s)), "url": s == "'/'"}.get(f, s == "unset")
        shows("where nothing was set", fresh, default)
        shows("of one that was given", full, held(p))
        for f in fields:
            q = dict(p)
            q[f] = par("q_" + f, 9)
            shows(f"where {f} was set again", api("with_" + f, b, full, q[f]), held(q))
            one = api("with_" + f, b, fresh, p[f])
            shows(f"where only {f} was set", one, lambda g, got, f=f, w=held(p): w(g, got) if g == f else default(g, got))
        m = api("build", b, full)
        for u, fs in updates.items():
            conv = api.frm(u, ty)
            x = api(conv, None, m)
            for f in fs:
                got = settled(api(f, u, x))
                c.ob("message-convert", f"{u} from {ty}: {f}", held(p)(f, got), conv, f"is {show(got)[:300]}")
        if ty == "HttpResponse":
            conv = api.frm(b, ty)
            shows("of a builder made of a response", api(conv, None, m), held(p), "message-convert", [("build", ty, fields)])
            none = api("build", b, api("with_headers", b, fresh, p["headers"]))
            got = settled(api("upgrade", ty, api("build", b, api(conv, None, none))))
            c.ob("message-convert", "a builder made of a response that says nothing about upgrading", show(got) == "unset", conv, f"upgrade is {show(got)[:200]}")
    for m in ("get", "post", "put", "patch", "delete"):
        f = api.fn(m, "HttpRequest")
        x = api("build", "HttpRequestBuilder", api(f, None, par("url")))
        s = show(settled(api("method", "HttpRequest", x)))
        c.ob("message-hold", f"HttpRequest::{m}: the method", bool(re.search(rf"(?i)\b{m}\b", s)), f, f"is {s[:200]}")
        s = show(settled(api("url", "HttpRequest", x)))
        c.ob("message-hold", f"HttpRequest::{m}: the url", s == "$url", f, f"is {s[:200]}")
    for w, x in (("MethodWrapper", "Method"), ("StatusCodeWrapper", "StatusCode")):
        for f in [f for f in c.fns(HC, "from") if re.search(r"(^|::)" + w + "$", str(f.get("self") or ""))]:
            s = show(api(f, None, par("x")))
            c.ob("message-convert", f"{w} from {x}", bool(re.fullmatch(r"\w+\(\$x\)", s)), f, f"is {s[:200]}")

    c.rule("message-add", "adding a header appends it and changes nothing else")
    for ty in ("HttpResponse", "HttpUpdateResponse"):
        f = api.fn("add_header", ty)
        r = c.run(f, NO, names=["self", "h"])
        s = [x for k, x in r.mem.items() if k[0] == "obj" and show(k[1]) == "$self"]
        good = len(s) == 1 and s[0].op == "upd" and show(s[0].a[0]) == "$self" and tuple(s[0].a[1])[-1] == "headers" and show(s[0].a[2]) == "[*each($self.headers), $h]"
        c.ob("message-add", ty, good, f, "; ".join(show(x)[:300] for x in s))

    c.rule("message-url", "the path of a request is the percent-decoded path of its url, the query the query of its url as it stands; a url that does "
                          "not parse, or a path that does not decode, is an error and nothing else is")
    for ty in ("HttpRequest", "HttpUpdateRequest"):
        _url(c, api, ty)

    c.rule("message-equal", "two responses are equal exactly if status, body, upgrade and, in any order, headers are")
    fs = [f for f in c.fns(HC, "eq") if re.search(r"(^|::)HttpResponse(<|$)", str(f.get("self") or ""))]
    c.count("message-equal", "comparison of responses", len(fs), 1, HC)
    for f in fs:
        _equal(c, f)


def _url(c, api, ty):
    parse = r"(?:<impl str>::parse|FromStr::from_str|Uri::from_str|TryFrom::try_from|TryInto::try_into|Uri::try_from)\(\$self\.url\)"
    for name, ok in (("get_path", rf"urlencoding::decode\(Uri::path\({parse}~Ok\.0\)\)"), ("get_query", None)):
        f = api.fn(name, ty)
        r = c.run(f, NO, names=["self"])
        n = {"Ok": 0, "Err": 0}
        for v in n:
            ways = [(d | e, t, show(t).split("(")[0] + f"({show(x)})") for d, t in by_variant(r, v) for e, x in alternatives(t.a[3][0]) if consistent(d, e)]
            for d, t, got in ways:
                fs = fact_strs(d)
                if name == "get_path":
                    yes = {x for x in fs if re.fullmatch(rf"{parse} is Ok|{ok} is Ok", x)}
                    no = {x for x in fs if re.fullmatch(rf"!{parse} is Ok|!{ok} is Ok", x)}
                    if v == "Ok":
                        good = len(yes) == 2 and yes == fs and bool(re.fullmatch(rf"Ok\({ok}~Ok\.0\)", got))
                    else:
                        good = len(no) == 1
                else:
                    q = rf"Uri::query\({parse}~Ok\.0\)"
                    rest = {x for x in fs if not re.fullmatch(rf"{parse} is Ok", x)}
                    if v == "Ok":
                        good = len(fs) > len(rest) and (
                            not rest and bool(re.fullmatch(rf"Ok\({q}\)", got))
                            or len(rest) == 1 and bool(re.fullmatch(rf"{q} is Some", next(iter(rest)))) and bool(re.fullmatch(rf"Ok\((Some\({q}~Some\.0\)|{q})\)", got))
                            or len(rest) == 1 and bool(re.fullmatch(rf"!{q} is Some", next(iter(rest)))) and bool(re.fullmatch(rf"Ok\((None|{q})\)", got)))
                    else:
                        good = len(fs) == 1 and bool(re.fullmatch(rf"!{parse} is Ok", next(iter(fs))))
                n[v] += 1
                c.ob("message-url", f"{ty}::{name}: {v}", good, f, f"{got[:300]} if {sorted(fs)}"[:500])
        c.count("message-url", f"way to give the {name[4:]} of a {ty}", min(n.values()), 1, f["path"])


def _equal(c, f):
    r = c.run(f, NO, names=["a", "b"])
    names = {}
    for x in ("status_code", "body", "upgrade"):
        for w in ("", ".0"):
            names[eqs(f"$a.{x}{w}", f"$b.{x}{w}")] = x

    def name(k):
        k = show(k)
        if re.fullmatch(r"eq\(sorted\(\$a\.headers(, [^$]*)?\), sorted\(\$b\.headers\1\)\)", k):
            return "headers"
        return names.get(k)

    want = ("status_code", "body", "upgrade", "headers")
    ways = []
    unknown = set()
    for d, t in by_variant(r):
        fs = {(name(k), v) for k, v in d}
        unknown |= {show(k) for k, _ in d if not name(k)}
        ways.append((fs, show(t) if show(t) in ("True", "False") else name(t) or unknown.add(show(t))))
    c.ob("message-equal", "what is compared", not unknown, f, f"{sorted(unknown)}"[:400])
    bad = []
    if not unknown:
        for i in range(16):
            env = {w: bool(i >> j & 1) for j, w in enumerate(want)}
            outs = {o == "True" if o in ("True", "False") else env[o] for fs, o in ways if all(env[k] == v for k, v in fs)}
            if outs != {all(env.values())}:
                bad.append((env, outs))
    c.ob("message-equal", "when they are equal", not bad, f, f"{bad[:2]}")


STANDARD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".encode().hex()


def base64(t):
    """What is encoded, where a term is the standard base64 of something."""
    if t.op == "call" and last(t.a[0]) == "encode" and len(t.a[1]) == 2:
        cfg = show(t.a[1][0])
        if f"encode_table: b[{STANDARD}]" in cfg and "encode_padding: True" in cfg:
            return t.a[1][1]
    return None


def cbor(t):
    """What is written, where a term is self-described CBOR."""
    while t.op == "call" and last(t.a[0]) == "into_inner":
        t = t.a[1][0]
    m = re.fullmatch(r"Serialize::serialize!1\((.*), Serializer::self_describe!0\(Serializer::new\(\[\]\)\)\)", show(t), re.S)
    return m and m.group(1)


def header_fields(t):
    """{name: value} of a certificate header's text, values as they are shown or what is encoded in them; or what is wrong."""
    ps = list(t.a[1]) if t.op == "call" and t.a[0] == "concat" else [t]
    text, vals = "", []
    for x in ps:
        m = re.fullmatch(r"'(.*)'", show(x), re.S)
        if m and "\0" not in m.group(1):
            text += m.group(1)
        else:
            text += f"\0{len(vals)}\0"
            vals.append(x)
    out = {}
    for part in text.split(","):
        k, eq, v = part.strip().partition("=")
        if not eq or k in out:
            return f"no field, or one again: {part!r}"
        m = re.fullmatch(r":\0(\d+)\0:", v)
        if m:
            b = base64(vals[int(m.group(1))])
            if b is None:
                return f"{k} is not base64: {show(vals[int(m.group(1))])[:200]}"
            out[k] = cbor(b) or show(b)
            out[k] = ("cbor", out[k]) if cbor(b) else ("bytes", out[k])
        else:
            out[k] = ("text", re.sub(r"\0(\d+)\0", lambda m: show(vals[int(m.group(1))]), v))
    return out


def added(r, name):
    """The headers added to a response, or what else was done to it."""
    s = [x for k, x in r.mem.items() if k[0] == "obj" and show(k[1]) == f"${name}"]
    if len(s) != 1 or s[0].op != "upd" or show(s[0].a[0]) != f"${name}" or tuple(s[0].a[1])[-1] != "headers" or s[0].a[2].op != "list":
        return "; ".join(show(x)[:300] for x in s)
    its = s[0].a[2].a[0]
    if not its or show(its[0][1]) != f"each(${name}.headers)" or its[0][2] or any(k != "it" or g for k, _, g in its[1:]):
        return show(s[0].a[2])[:300]
    return [x for _, x, _ in its[1:]]


def c38(c):
    c.rule("header-written", "the certificate header is appended to the response's headers and nothing else is changed: the certificate and, in self-described "
                             "CBOR, the witness and the expression path as they were given, each in standard base64 between colons, and version 2")
    f = [f for f in c.fns(HC, "add_v2_certificate_header")]
    c.count("header-written", "function that writes the header", len(f), 1, HC)
    f = f[0]
    r = c.run(f, NO, names=["cert", "resp", "tree", "path"])
    hs = added(r, "resp")
    if c.ob("header-written", "one header is added", not isinstance(hs, str) and len(hs) == 1, f, f"{hs}"[:400]):
        _header(c, "header-written", "", f, hs[0], ("bytes", "$cert"), ("cbor", "$tree"), ("cbor", "$path"))


def _header(c, rule, what, f, h, cert, tree, path):
    name, val = _parts(h)
    c.ob(rule, f"{what}name of the certificate header", name is not None and show(name).lower() == "'ic-certificate'", f, f"{name and show(name)}")
    if name is None:
        return
    fs = header_fields(val)
    if not c.ob(rule, f"{what}form of the certificate header", isinstance(fs, dict), f, f"{fs}"[:400]):
        return
    want = {"certificate": cert, "tree": tree, "expr_path": path, "version": ("text", "2")}
    for k in sorted(set(want) | set(fs)):
        w = want.get(k)
        c.ob(rule, f"{what}{k}", k in fs and (w(fs[k]) if callable(w) else w == fs[k]), f, f"is {fs.get(k)}"[:400])


def _parts(h):
    return tuple(h.a[3]) if h.op == "adt" and h.a[0] == "tuple" and len(h.a[3]) == 2 else (None, None)


def c39(c):
    c.rule("skip-header", "the skip headers are the certificate header, whose tree is http_expr / <*> / hash of the skip expression / empty leaf and whose path is "
                          "http_expr, <*>, and the expression header with the text of that expression")
    c.rule("skip-data", "the data to certify for them is the digest of exactly that tree")
    f = c.fn(HC, "add_skip_certification_header")
    r = c.run(f, NO, names=["cert", "resp"])
    hs = added(r, "resp")
    if not c.ob("skip-header", "two headers are added", not isinstance(hs, str) and len(hs) == 2, f, f"{hs}"[:400]):
        return
    by = {}
    for h in hs:
        name, val = _parts(h)
        by[name is not None and show(name).lower().strip("'")] = (h, val)
    if not c.ob("skip-header", "which headers", set(by) == {"ic-certificate", "ic-certificateexpression"}, f, f"{set(by)}"):
        return
    expr = show(by["ic-certificateexpression"][1])
    c.ob("skip-header", "the expression", expr == "CelExpression::Default(DefaultCelExpression::Skip)", f, expr[:300])
    root = f"HashTreeNode::Labeled('http_expr', HashTreeNode::Labeled('<*>', HashTreeNode::Labeled(sha256({expr}), HashTreeNode::Leaf([]))))"
    tree = f"HashTree(root: {root})"

    def path(v):
        x = re.sub(r"(split|ends_with)\(\[\], ", r"\1('', ", v[1])
        x = re.sub(r"\*each\(split\('', (47|'/')\)\)\|\{!eq\(0, len\(each\(split\('', (47|'/')\)\)\)\)\}, ", "", x)
        x = re.sub(r"\*''\|\{<impl str>::ends_with\('', (47|'/')\)\}, ", "", x)
        return v[0] == "cbor" and x == "['http_expr', '<*>']"
    _header(c, "skip-header", "", f, by["ic-certificate"][0], ("bytes", "$cert"), lambda v: v == ("cbor", tree), path)
    g = c.fn(HC, "skip_certification_certified_data")
    got = c.run(g, NO).ret
    dg = by_self(c, IC, "digest", "HashTree")
    lab = [x for k, x in r.mem.items() if k[0] == "obj" for x in own(x) if x.op == "adt" and show(x) == tree]
    good = False
    if lab:
        good = show(c.run(dg, NO, args=[lab[0]]).ret) == show(got)
    c.ob("skip-data", "skip_certification_certified_data", good, g, show(got)[:400])


CREATE = {"CelExpression": "create_cel_expr", "DefaultCelExpression": "create_default_cel_expr",
          "DefaultResponseOnlyCelExpression": "create_default_response_only_cel_expr", "DefaultFullCelExpression": "create_default_full_cel_expr"}


def c40(c):
    api = Api(c)
    c.rule("cel-built", "a built expression has the lists that were last given for each of its parts, and certifies nothing where none was given")
    c.rule("cel-shown", "an expression shows as its text")
    full, only = "DefaultFullCelExpressionBuilder", "DefaultResponseOnlyCelBuilder"
    parts = ("request_headers", "request_query_parameters", "response_certification")
    p = {x: par("p_" + x, i + 1) for i, x in enumerate(parts)}
    where = {"request_headers": ("request", "headers"), "request_query_parameters": ("request", "query_parameters"), "response_certification": ("response",)}
    none = {"request_headers": r"default\(.*\)|\[\]|unset", "request_query_parameters": r"default\(.*\)|\[\]|unset",
            "response_certification": r"DefaultResponseCertification\(DefaultResponseCertificationType::CertifiedResponseHeaders\((\[\]|default\(.*\)|unset)\)\)"}

    def get(t, path):
        for x in path:
            t = field(t, x)
        return t

    def start(ty):
        fs = [f for f in c.fns(HC, "default") if re.search(r"(^|::)" + ty + r"(<|$)", str(f.get("self") or ""))]
        if len(fs) != 1:
            raise Anchor(f"Default for {ty}: found {len(fs)}")
        return api(fs[0], None)

    def checks(what, b, ty, want, names):
        f = api.fn("build", ty)
        m = api(f, None, b)
        for x in names:
            got = show(settled(get(m, where[x])))
            c.ob("cel-built", f"{ty}: {x.replace('_', ' ')} {what}", bool(re.fullmatch(want[x], got)), f, f"is {got[:300]}")
    given = {x: re.escape(show(p[x])) for x in parts}
    for ty, names, make in ((full, parts, "full_certification"), (only, parts[2:], "response_only_certification")):
        s = show(api(make, "DefaultCelBuilder"))
        f = api.fn(make, "DefaultCelBuilder")
        c.ob("cel-built", f"{make} begins with nothing set", bool(re.fullmatch(rf"default\(\"[\w:]*{ty}(<'_>)?\"\)", s)) or s == show(start(ty)), f, s[:300])
        b = start(ty)
        checks("where nothing was given", b, ty, none, names)
        for x in names:
            b = api("with_" + x, ty, b, p[x])
        checks("as given", b, ty, given, names)
        for x in names:
            q = dict(given)
            q[x] = r"\$again"
            checks(f"where {x.replace('_', ' ')} was given again", api("with_" + x, ty, b, par("again", 9)), ty, q, names)
            one = dict(none)
            one[x] = given[x]
            checks(f"where only {x.replace('_', ' ')} was given", api("with_" + x, ty, start(ty), p[x]), ty, one, names)
    f = api.fn("skip_certification", "DefaultCelBuilder")
    s = show(api(f, None))
    c.ob("cel-built", "skip_certification", s == "CelExpression::Default(DefaultCelExpression::Skip)", f, s[:200])
    for n, k in (("certified_response_headers", "CertifiedResponseHeaders"), ("response_header_exclusions", "ResponseHeaderExclusions")):
        f = api.fn(n, "DefaultResponseCertification")
        s = show(api(f, None, par("h")))
        c.ob("cel-built", n, s == f"DefaultResponseCertification(DefaultResponseCertificationType::{k}($h))", f, s[:300])
    f = api.fn("new", "DefaultRequestCertification")
    s = api(f, None, par("h"), par("q", 2))
    c.ob("cel-built", "DefaultRequestCertification::new", (show(field(s, "headers")), show(field(s, "query_parameters"))) == ("$h", "$q"), f, show(s)[:300])
    made = {f["id"] for n in CREATE.values() for f in c.fns(HC, n)}
    for ty, create in CREATE.items():
        fs = [f for f in c.fns(HC, "fmt") if "Display" in f["path"] and re.search(r"(^|::)" + ty + r"(<|$)", str(f.get("self") or ""))]
        c.count("cel-shown", f"Display of {ty}", len(fs), 1, HC)
        for f in fs:
            r = c.run(f, lambda g: g["id"] in made, names=["self", "f"])
            s = [show(x) for k, x in r.mem.items() if k[0] == "obj" and show(k[1]) == "$f"]
            c.ob("cel-shown", ty, len(s) == 1 and bool(re.fullmatch(rf"concat\(\$f, (\w+::)*{create}\(\$self\)\)|Display::fmt!1\((\w+::)*{create}\(\$self\), \$f\)", s[0])), f, f"{s}"[:300])


RULES = {"C29": c29, "C38": c38, "C39": c39, "C40": c40}

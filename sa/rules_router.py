"""Rules about the asset router: what it stores and certifies, what it deletes, what it serves."""

from fw import *
from rules_http import HC, by_self, nshow, norm, pos
from rules_hash import unq

AC = "ic_asset_certification"


def bounds(c, *extra):
    ids = set()
    for n in ("insert", "delete", "clear", "witness", "root_hash"):
        ids.add(by_self(c, HC, n, "HttpCertificationTree")["id"])
    ids.add(by_self(c, HC, "full", "HttpCertification")["id"])
    ids.add(by_self(c, HC, "new", "HttpCertificationTreeEntry")["id"])
    ids |= {f["id"] for f in conversions(c)}
    ids |= {f["id"] for f in extra}
    b = c.bset(f"{HC}:add_v2_certificate_header")
    return lambda f: b(f) or f["id"] in ids


def conversions(c):
    """How configurations are prepared; C43 decides that nothing of them is changed by it."""
    return [f for f in c.fns(AC, "try_from") if "NormalizedAssetConfig" in str(f.get("self"))]


def chunk_size(c):
    fs = [f for f in c.prog.fns.values() if f["crate"] == AC and f["name"] == "ASSET_CHUNK_SIZE"]
    for f in fs:
        v = num(c.run(f).ret)
        if v is not None:
            return v
    return 2_000_000


class Names:
    """Terms of one run in the vocabulary of the rules: A an asset, V its encoded variant, CFG the asset's configuration,
    ENC an encoding of it, RULE a redirect rule, POS the start of a chunk."""

    def __init__(self, assets, configs, kind=""):
        self.assets, self.configs, self.kind = f"${assets}", f"${configs}", kind
        self.memo = {}
        self.sub = {}

    def of(self, d):
        """The vocabulary where the facts say what kind of configuration applies."""
        for k in ("File", "Pattern"):
            if f"CFG is {k}" in self.facts(d):
                if k not in self.sub:
                    self.sub[k] = Names(self.assets[1:], self.configs[1:], k)
                return self.sub[k]
        return self

    def __call__(self, t):
        return nshow(self.term(t))

    def term(self, t):
        return rewrite(t, self.f, self.memo)

    def facts(self, d):
        return {norm(unq(x)) for x in fact_strs(frozenset((self.term(x), v) for x, v in d))}

    def f(self, x):
        if x.op == "lv":
            return mk("abbr", "POS") if any(num(v) == 0 for v in TM.LV.get(x, ())) else x
        if stepped(x):
            return POS
        if x.op == "is" and x.a[0].op == "next" and x.a[1] == "Some":
            # a chunk's start is below the end of the range
            q = x.a[0].a[0]
            end = q.a[1][0] if q.op == "call" and last(q.a[0]) == "step_by" else q
            end = rangeof(end)
            if end is not None and q is not end:
                if end.op == "call" and last(end.a[0]) == "div_ceil":
                    end = end.a[1][0]
                return mk("lt", POS, end)
        # a configuration that is prepared is that configuration
        if x.op == "fld" and x.a[1:] == ("Ok", "0") and converted(x.a[0]) is not None:
            return converted(x.a[0])
        if converted(x) is not None:
            return call("try_into", converted(x))
        # what is done with a redirect is done with the redirects themselves
        if x.op == "fld" and x.a[1] == "Redirect" and x.a[0].op == "abbr" and x.a[0].a[0] == "CFG":
            return mk("fld", mk("abbr", "RULE"), *x.a[1:])
        if x.op == "is" and x.a[1] == "Redirect" and x.a[0].op == "abbr" and x.a[0].a[1:]:
            return mk("is", mk("abbr", "RULE"), "Redirect")
        if x.op != "elem":
            return x
        seq, tag = x.a
        while seq.op == "phi":
            ne = [y for _, y in seq.a[0] if not (y.op == "list" and not y.a[0])]
            if len(set(ne)) > 1 and self.kind:
                ne = [y for y in ne if f"CFG~{self.kind}." in show(y)]
            if len(set(ne)) != 1:
                break
            seq = ne[0]
        s = show(seq)
        if s == self.assets:
            key = tag[1][1] if isinstance(tag, tuple) and tag[0] == "i" and isinstance(tag[1], tuple) and tag[1][0] == "key" else None
            if key is None:
                return mk("abbr", "A")
            k = nshow(self.term(key))
            return mk("abbr", "V" if re.fullmatch(r"concat\(A\.path, ENC\.1\)", k) else f"AT({k})")
        if s == self.configs:
            return mk("abbr", "CFG") if isinstance(tag, tuple) and tag[0] in ("i", "earlier") else mk("abbr", "CFG", "any")
        if re.fullmatch(r"CFG~(File|Pattern)\.encodings", s):
            return mk("abbr", "ENC")
        return mk("elem", seq, "all")


def converted(x):
    if x.op == "call" and last(x.a[0]) in ("try_from", "try_into") and len(x.a[1]) == 1 and (x.a[1][0].op == "elem" or x.a[1][0].op == "abbr"):
        return x.a[1][0]
    return None


def stepped(x):
    """(end, step) where x walks the multiples of step below end: every step-th number of a range from 0, or every number below
    the quotient rounded up, times the step."""
    if x.op == "elem":
        q = x.a[0]
        if q.op == "call" and last(q.a[0]) == "step_by" and rangeof(q.a[1][0]) is not None:
            return rangeof(q.a[1][0]), num(q.a[1][1])
    if x.op == "bin" and x.a[0] == "Mul":
        for n, e in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            end = rangeof(e.a[0]) if e.op == "elem" else None
            if num(n) is not None and end is not None and end.op == "call" and last(end.a[0]) == "div_ceil" and num(end.a[1][1]) == num(n):
                return end.a[1][0], num(n)
    return None


def rangeof(t):
    """The end of a range from 0."""
    if t.op == "adt" and t.a[1] == "Range" and num(t.a[3][0]) == 0:
        return t.a[3][1]
    return None


def poscheck(t, chunk):
    """A chunk starts at every multiple of the chunk size, from 0."""
    if stepped(t):
        return "" if stepped(t)[1] == chunk else f"takes steps of {stepped(t)[1]}"
    if t.op == "lv":
        vs = TM.LV.get(t, ())
        bad = [v for v in vs if num(v) != 0 and evaluate_n(v, {t: 0}) != chunk and evaluate_n(v, {t: chunk}) != 2 * chunk]
        if any(num(v) == 0 for v in vs) and not bad and len(vs) > 1:
            return ""
        return f"takes the values {[show(v)[:80] for v in vs]}"
    return f"is {show(t)[:200]}"


def evaluate_n(t, env):
    return num(evaluate(t, env))


def grid(chunk):
    for total in (chunk + 1, chunk + 2, 2 * chunk - 1, 2 * chunk, 2 * chunk + 1, 3 * chunk, 3 * chunk + 7):
        for p in range(0, total, chunk):
            yield p, total


POS = mk("abbr", "POS")


def arith(t, pos_, total, content):
    """A number built from the chunk's start and the content's length."""
    def f(x):
        if x == POS:
            return mk("int", str(pos_))
        if x.op == "len":
            y = x.a[0]
            if show(y) == content:
                return mk("int", str(total))
            if y.op == "call" and last(y.a[0]) == "slice":
                lo, hi = bounds_of(y.a[1][1])
                if lo is not None and hi is not None:
                    return mk("int", str(hi - lo))
        return fold1(x)
    return rewrite(t, f, {})


def bounds_of(r):
    if r.op != "adt":
        return None, None
    v = dict(zip(r.a[2], r.a[3]))
    lo = num(v["start"]) if "start" in v else 0
    hi = num(v["end"]) if "end" in v else None
    if hi is not None and "Inclusive" in r.a[0]:
        hi += 1
    return lo, hi


def same_number(t, want, chunk, content):
    """t equals want(start, total) for every chunk of contents of several lengths."""
    for p, n in grid(chunk):
        got = num(arith(t, p, n, content))
        if got != want(p, n):
            return f"{nshow(t)[:300]} is {got}, not {want(p, n)}, for the chunk at {p} of {n} bytes"
    return ""


IGNORE = re.compile(r"!?(all\()?(next\(|collected\(|ovf\(|full\(|try_into\()")


def variant_of(t):
    return show(t.a[3][0]) if t.op == "adt" and len(t.a[3]) == 1 else None


def dead(d):
    """Under these facts a sequence one of whose elements this is about is empty."""
    for c, v in d:
        if v and c.op == "all" and c.a[0].op == "or" and not any(consistent(d, alt) for alt in c.a[0].a[0]):
            return True         # what is said of every element cannot be said of this one
        if v and c.op == "is" and c.a[0].op == "next" and c.a[0].a[0].op == "phi":
            if any(g and g <= d and y.op == "list" and not y.a[0] for g, y in c.a[0].a[0].a[0]):
                return True
    return False


class Rec:
    """One way something gets into a map: which map, under which key, what is stored, under which facts."""

    def __init__(self, nm, mp, key, val, d):
        self.map = mp
        nm = nm.of(d)
        key = nm.term(key)
        self.path, self.enc, self.pos = (nshow(field(key, n)) for n in ("path", "encoding", "range_begin"))
        self.val = nm.term(val) if val is not None else None
        self.facts = nm.facts(d)
        self.d = frozenset((nm.term(x), v) for x, v in d)
        F = self.facts
        self.cfg = "Redirect" if "RULE is Redirect" in F else "File" if "CFG is File" in F else "Pattern" if "CFG is Pattern" in F else "none"
        self.enc_is = {"None": "A", "Some(ENC.0)": "V"}.get(self.enc)
        self.chunk = {"None": False, "Some(POS)": True}.get(self.pos)
        self.kind = {"A.url": "asset", "each(CFG~File.aliased_by)": "alias", "each(CFG~File.fallback_for).scope": "fallback",
                     "RULE~Redirect.from": "redirect"}.get(self.path)

    def ok(self):
        return self.enc_is and self.chunk is not None and self.kind

    def name(self):
        return f"{self.cfg}: {self.kind}{' (encoded)' if self.enc_is == 'V' else ''}{', chunk' if self.chunk else ''}"

    def group(self):
        return self.cfg, self.kind, self.enc_is, self.chunk

    def extra(self):
        """Facts that are neither the loops', nor what the case is about."""
        s = self.enc_is
        drop = {"CFG is File", "CFG is Pattern", "RULE is Redirect", "eq(A.path, CFG~File.path)", "is_match(CFG~Pattern.pattern, A.path)",
                "eq(V.path, concat(A.path, ENC.1))", "eq(concat(A.path, ENC.1), V.path)"}
        out = set()
        for x in self.facts - drop:
            if re.match(r"all\(OR\(.*\{!lt\(POS, len\([AV]\.content\)\)\}", x):
                continue        # all were walked to the end
            if IGNORE.match(x) or re.match(r"all\(", x) and "full(" in x or x.startswith("mapget([") and x.endswith("concat(A.path, ENC.1)) is Some"):
                continue
            if s and re.fullmatch(rf"!?lt\((POS, )?len\({s}\.content\)(, \d+)?\)", x):
                continue
            if self.cfg == "none" and NONE_FOUND.match(x):
                continue
            if re.fullmatch(r"RULE~Redirect\.kind is \w+", x):
                continue
            out.add(x)
        return out


NONE_FOUND = re.compile(r"!?all\(|!?each\(\$|!?mapfind|CFG is Redirect$|!is_match\(CFG|!eq\(A\.path, CFG")


EXPR = ("DefaultFullCelExpression(request: DefaultRequestCertification(headers: [{}], query_parameters: {}), "
        "response: DefaultResponseCertification(ResponseHeaderExclusions([])))")


def lower_name(s):
    m = re.fullmatch(r"HeaderName\(inner: Standard\((\w+)\)\)", s)
    if m:
        return re.sub(r"(?<=[a-z])(?=[A-Z])", "-", m.group(1)).lower()
    return s.strip("'").lower()


def nodefault(s):
    """A builder's default, which is empty."""
    s = re.sub(r"default\(\"\w+Builder<[^\"]*>\"\)\.(headers|body|request_query_parameters)", "[]", s)
    return s


def headers_of(t):
    """[(name, value term, guard)] of a list of headers; a whole list of headers is ('*', its text, guard)."""
    out = []
    if t.op != "list":
        return [("?", t, frozenset())]
    for k, x, g in t.a[0]:
        if x.op == "adt" and len(x.a[3]) == 2:
            out.append((lower_name(nshow(x.a[3][0])), x.a[3][1], g))
        elif k == "rep" and x.op == "elem":
            out.append(("*", x.a[0], g))
        else:
            out.append(("?", x, g))
    return out


def status_of(t, d):
    """Texts of the possible status codes with their guards."""
    out = {}
    for g, x in alts(t):
        if consistent(d, g):
            m = re.fullmatch(r"StatusCode\(.*\"(\d+)\".*\)", nshow(x))
            out.setdefault(m.group(1) if m else nshow(x), []).append(g - d)
    return out


def stored(c, rule, R, fn, chunk):
    """Everything that is checked of one stored response."""
    L = R.name()

    def ob(rl, what, good, det=""):
        c.ob(rl, f"{L}: {what}", good, fn, det)
    resp, entry = field(R.val, "response"), field(R.val, "tree_entry")
    if resp is None or entry is None or not (entry.op == "call" and last(entry.a[0]) == "new"):
        ob("stored-certified", "a response with its tree entry", False, nshow(R.val)[:400])
        return None
    pth, cert = entry.a[1]
    m = cert
    if m.op == "fld" and m.a[1] == "Ok":
        m = m.a[0]
    if not (m.op == "call" and last(m.a[0]) == "full" and len(m.a[1]) == 4):
        ob("stored-certified", "fully certified", False, nshow(cert)[:400])
        return None
    expr, req, r2, h = m.a[1]
    ob("stored-certified", "the certified response is the stored one", nshow(r2) == nshow(resp) and nshow(h) in ("None", "Some(hash(body))"),
       f"certified {nshow(r2)[:300]} but stored {nshow(resp)[:300]}")
    # path
    want = {"fallback": "HttpCertificationPath(Wildcard(each(CFG~File.fallback_for).scope))"}.get(R.kind, f"HttpCertificationPath(Exact({R.path}))")
    ob("stored-certified", "the tree path is the key's", nshow(pth) == want, f"{nshow(pth)} for the key {R.path}")
    ob("stored-certified", "in the right map", R.map == ("fallback_responses" if R.kind == "fallback" else "responses"), R.map)
    # request
    q = {n: field(req, n) for n in ("method", "url", "headers")}
    qm, qu = nshow(q["method"]), nshow(q["url"])
    ob("stored-certified", "certified for a GET request of its URL", qm == "Method(Get)" and (qu == R.path or R.kind == "fallback"), f"{qm} {qu}")
    qh = nodefault(nshow(q["headers"]))
    if not R.chunk:
        ob("stored-certified", "certified for a request without headers", qh == "[]", qh)
    else:
        bad = range_header(q["headers"])
        ob("stored-certified", "certified for a request with the chunk's range header, the first one for a request without", not bad, bad)
    # expression
    e = nodefault(nshow(expr))
    ok_e = [EXPR.format(x, "[]") for x in (("HeaderName(inner: Standard(Range))", "'range'", "'Range'") if R.chunk else ("",))]
    ob("stored-certified", "the expression certifies every response header" + (" and the range header" if R.chunk else ""), e in ok_e, e[:500])
    # content
    S = R.enc_is
    hs = headers_of(field(resp, "headers"))
    body = field(resp, "body")
    got = {}
    for n, v, g in hs:
        got.setdefault(n, []).append((v, g))

    def one(n):
        x = got.pop(n, [])
        return x[0] if len(x) == 1 else (None, x)
    v, g = one("ic-certificateexpression")
    ob("stored-certified", "has the certificate expression header", v is not None and not g and nodefault(nshow(v)) == e, nshow(v)[:300] if v is not None else f"{g}"[:200])
    src = f"{S}.content" if R.kind != "redirect" else "[]"
    v, g = one("content-length")
    if R.chunk:
        inner = body
        while inner.op == "call" and last(inner.a[0]) in ("to_owned", "into", "to_vec"):
            inner = inner.a[1][0]
        okb = inner.op == "call" and last(inner.a[0]) == "slice" and nshow(inner.a[1][0]) == src and inner.a[1][1].op == "adt"
        ob("stored-content", "the body is a part of the asset's content", okb, nshow(body)[:300])
        if okb:
            rg = inner.a[1][1]
            f = dict(zip(rg.a[2], rg.a[3]))
            lo = same_number(f.get("start", mk("int", "0")), lambda p, n: p, chunk, src)
            hi = same_number(f["end"], lambda p, n: min(p + chunk, n) - ("Inclusive" in rg.a[0]), chunk, src) if "end" in f else \
                "goes on to the end of the content"
            ob("stored-content", "the body is the chunk", not lo and not hi, lo or hi)
        ob("stored-content", "content-length", v is not None and not g and not same_number(v, lambda p, n: min(p + chunk, n) - p, chunk, src),
           nshow(v)[:300] if v is not None else f"{g}"[:200])
        v, g = one("content-range")
        bad = "missing, or there twice" if v is None else content_range(v, chunk, src)
        ob("stored-content", "content-range", not bad and not g, bad)
    else:
        ob("stored-content", "the body is the asset's content" if R.kind != "redirect" else "no body", nshow(body) in (src, f"into({src})"), nshow(body)[:300])
        ob("stored-content", "content-length", v is not None and not g and nshow(v) in (f"len({src})", "0" if src == "[]" else ""),
           nshow(v)[:300] if v is not None else f"{g}"[:200])
    k = R.cfg
    if R.kind == "redirect":
        v, g = one("location")
        ob("stored-content", "location", v is not None and not g and nshow(v) == "RULE~Redirect.to", nshow(v)[:200] if v is not None else f"{g}"[:200])
    else:
        if R.enc_is == "V":
            v, g = one("content-encoding")
            ob("stored-content", "content-encoding is the key's", v is not None and not g and nshow(v) == "ENC.0", nshow(v)[:200] if v is not None else f"{g}"[:200])
        if k in ("File", "Pattern"):
            v, g = one("content-type")
            ct = f"CFG~{k}.content_type"
            gs = fact_strs(g) if v is not None else set()
            ob("stored-content", "content-type when one is configured", v is not None and nshow(v) == f"{ct}~Some.0" and gs == {f"{ct} is Some"},
               f"{nshow(v)[:200]} if {gs}" if v is not None else f"{g}"[:200])
            v, g = one("*")
            ob("stored-content", "every configured header", v is not None and not g and nshow(v) == f"CFG~{k}.headers", nshow(v)[:200] if v is not None else f"{g}"[:200])
    ob("stored-content", "no other header", not got, f"{[(n, nshow(x[0][0])[:100]) for n, x in got.items()]}"[:400])
    st = status_of(field(resp, "status_code"), R.d)
    if R.chunk:
        good = set(st) == {"206"}
    elif R.kind == "fallback":
        fb = "each(CFG~File.fallback_for).status_code"
        good = set(st) == {"200", f"{fb}~Some.0"} and all(fact_strs(g) == {f"{fb} is Some"} for g in st[f"{fb}~Some.0"]) and \
            all(fact_strs(g) == {f"!{fb} is Some"} for g in st["200"])
    elif R.kind == "redirect":
        kd = "RULE~Redirect.kind is "
        F = R.facts
        w = {"301": f"{kd}Permanent", "307": f"{kd}Temporary"}
        good = bool(st) and all(x in w and all(w[x] in F or fact_strs(g) == {w[x]} for g in gs) for x, gs in st.items())
    else:
        good = set(st) == {"200"}
    ob("stored-content", "status code", good, f"{ {x: [sorted(fact_strs(g)) for g in gs] for x, gs in st.items()} }"[:300])
    return nshow(entry)


def range_header(t):
    """'' when the request headers are none for the first chunk and 'range: bytes=<start>-' for every other."""
    if t.op != "list" or len(t.a[0]) != 1:
        return f"the request's headers are {nodefault(nshow(t))[:200]}"
    (k, x, g), = t.a[0]
    if not (x.op == "adt" and len(x.a[3]) == 2 and lower_name(nshow(x.a[3][0])) == "range"):
        return f"the header is {nshow(x)[:200]}"
    if nshow(x.a[3][1]) not in ("concat('bytes=', display(POS), '-')", "concat('bytes=', POS, '-')"):
        return f"the range is {nshow(x.a[3][1])[:200]}"
    for v, want in ((0, False), (2_000_000, True), (4_000_000, True)):
        if any(evaluate_facts(d, {POS: v}) is not None for d in dnf(g)) != want:
            return f"the header is there if {sorted(fact_strs(g))}"
    return ""


def content_range(v, chunk, src):
    ps = [x for _, x, g in chunks(v)] if v.op != "call" else list(v.a[1])
    ps = [y for x in ps for y in (x.a[1] if x.op == "call" and last(x.a[0]) == "concat" else (x,))]

    def un(x):
        return x.a[1][0] if x.op == "call" and last(x.a[0]) == "display" else x
    if len(ps) != 6 or [nshow(ps[i]) for i in (0, 2, 4)] != ["'bytes '", "'-'", "'/'"]:
        return nshow(v)[:300]
    for i, w in ((1, lambda p, n: p), (3, lambda p, n: min(p + chunk, n) - 1), (5, lambda p, n: n)):
        bad = same_number(un(ps[i]), w, chunk, src)
        if bad:
            return bad
    return ""


WANT = [("none", "asset", e, ch) for e in "A" for ch in (False, True)] + [("Pattern", "asset", e, ch) for e in "AV" for ch in (False, True)] + \
    [("File", k, e, ch) for k in ("asset", "alias") for e in "AV" for ch in (False, True)] + [("File", "fallback", e, False) for e in "AV"] + \
    [("Redirect", "redirect", "A", False)]


def mapname(t):
    ns = set()
    for _, x in alts(t):
        if x.op == "list":      # the map with more entries
            for _, y, _ in x.a[0]:
                if y.op == "elem":
                    ns.add(mapname(y.a[0]))
            continue
        ns.add(x.a[2] if x.op == "fld" else "?")
    return ns.pop() if len(ns) == 1 else show(t)[:200]


def events(c, r, nm, kind):
    out = []
    for e in r.events:
        if e.kind != kind or "$self" not in show(e.args[0]):
            continue
        for d in dnf(e.facts):
            d = tidy(d)
            R = Rec(nm, mapname(e.args[0]), specialize(e.args[1], d), specialize(e.args[2], d) if len(e.args) > 2 else None, d)
            if not dead(d):
                out.append((R, e))
    return out


def treeops(r, nm, name):
    out = []
    for e in r.events:
        if e.kind == "boundary" and last(e.path) == name and "HttpCertificationTree" in e.path:
            for d in dnf(e.facts):
                d = tidy(d)
                n = nm.of(d)
                if not dead(d):
                    out.append((nshow(n.term(specialize(e.args[1], d))), n.facts(d), nshow(e.args[0]), e))
    return out


def router_run(c, name):
    fn = by_self(c, AC, name, "AssetRouter")
    TM.LV.clear()
    r = c.run(fn, bounds(c), names=["self", "assets", "configs"])
    return fn, r, Names("assets", "configs")


def c25(c):
    c.rule("stored-certified", "a response the router keeps is kept with a tree entry for the very same response, fully certified for a GET request "
                               "of the key's URL, under the key's path, and that entry is inserted into the tree whenever the response is stored")
    c.rule("stored-content", "a stored response has the asset's bytes (a chunk exactly its own), its length, the configured headers and content type, the key's "
                             "encoding, the chunk's range and the status code of its kind")
    c.rule("stored-complete", "every asset is stored under its URL, its aliases and fallback scopes, in every configured encoding there is an asset for, whole "
                              "and, when it is larger than a chunk, in chunks; every redirect is stored; nothing else decides it")
    fn, r, nm = router_run(c, "certify_assets")
    chunk = chunk_size(c)
    starts = {x for e in r.events if e.kind == "mapinsert" for x in subs(e.args[1]) if x.op == "lv" or stepped(x)}
    for v in starts:
        bad = poscheck(v, chunk)
        c.ob("stored-content", "chunks start at the multiples of the chunk size", not bad, fn, bad)
    ins = treeops(r, nm, "insert")
    groups = {}
    for R, e in events(c, r, nm, "mapinsert"):
        if not R.ok():
            c.ob("stored-certified", "stored under a known key", False, fn, f"{R.map}[{R.path[:200]}, {R.enc[:200]}, {R.pos[:100]}]")
            continue
        groups.setdefault(R.group(), []).append(R)
        en = stored(c, "", R, fn, chunk)
        if en is not None:
            F = R.facts
            c.ob("stored-certified", f"{R.name()}: its entry is in the tree", any(x == en and f <= F for x, f, _, _ in ins), fn,
                 f"no insertion of {en[:300]} for sure before"[:600])
    entries = {}
    for R in (x for g in groups.values() for x in g):
        entries.setdefault(nshow(field(R.val, "tree_entry")), []).append(R)
    for x, f, t, e in ins:
        c.ob("stored-certified", "an inserted entry belongs to a stored response", x in entries, fn, x[:400])
        c.ob("stored-certified", "inserted into the router's tree", re.search(r"\.tree\b", t) is not None, fn, t[:200])
    for g in WANT:
        rs = groups.get(g, [])
        nmg = Rec.name(rs[0]) if rs else str(g)
        c.ob("stored-complete", f"{nmg}: stored", bool(rs), fn, f"no {g} is ever stored")
        if not rs:
            continue
        for R in rs:
            x = R.extra()
            c.ob("stored-complete", f"{nmg}: without further condition", not x, fn, f"only if {sorted(x)}"[:600])
        big = f"lt(len({rs[0].enc_is}.content), {chunk + 1})"
        if g[3]:
            c.ob("stored-complete", f"{nmg}: exactly for contents larger than a chunk", all("!" + big in R.facts and f"lt(POS, len({R.enc_is}.content))" in R.facts for R in rs),
                 fn, f"{[sorted(R.facts)[:8] for R in rs]}"[:400])
        elif g[1] != "redirect":
            c.ob("stored-complete", f"{nmg}: whatever its size", any(big in R.facts for R in rs) == any(big not in R.facts for R in rs), fn, f"only if {big}")
        if g[0] == "File":
            c.ob("stored-complete", f"{nmg}: for the asset the configuration names", all("eq(A.path, CFG~File.path)" in R.facts for R in rs), fn, "")
        if g[0] == "Pattern":
            c.ob("stored-complete", f"{nmg}: for the assets the pattern matches", all("is_match(CFG~Pattern.pattern, A.path)" in R.facts for R in rs), fn, "")
    other = [e for e in r.events if e.kind == "mapremove" or e.kind == "boundary" and last(e.path) in ("delete", "clear") and "HttpCertificationTree" in e.path]
    c.ob("stored-complete", "certifying removes nothing", not other, fn, f"{[e.path for e in other]}"[:300])
    c.count("stored-certified", "ways a response is stored", sum(len(x) for x in groups.values()), 20, fn)


def c26(c):
    c.rule("delete-complete", "deleting takes out of the maps every key that certifying the same assets and configurations puts there, and of the tree "
                              "every entry, on the same conditions")
    c.rule("delete-only", "deleting takes nothing else out of the tree")
    c.rule("delete-all", "deleting everything empties both maps and the tree")
    fn, r, nm = router_run(c, "certify_assets")
    groups, chunk = {}, chunk_size(c)
    for R, e in events(c, r, nm, "mapinsert"):
        if R.ok():
            groups.setdefault(R.group(), {}).setdefault((R.map, R.path, R.enc, R.pos), set()).add(nshow(field(R.val, "tree_entry")))
    c.count("delete-complete", "kinds of stored response", len(groups), len(WANT), fn)
    fn, r, nm = router_run(c, "delete_assets")
    gone = {}
    for R, e in events(c, r, nm, "mapremove"):
        gone.setdefault((R.group(), (R.map, R.path, R.enc, R.pos)), []).append(R)
    starts = {x for e in r.events if e.kind == "mapremove" for x in subs(e.args[1]) if x.op == "lv" or stepped(x)}
    for v in starts:
        bad = poscheck(v, chunk)
        c.ob("delete-complete", "chunks start at the multiples of the chunk size", not bad, fn, bad)
    dels = treeops(r, nm, "delete")
    taken = {}
    for x, f, t, e in dels:
        m = re.fullmatch(r"mapremove\(.*\.(\w+)(?: if .*)?>?, RequestKey\(path: (.*), encoding: (.*?), range_begin: (.*?)\)\)~Some\.0\.tree_entry", x, re.S)
        taken.setdefault(("key", m.group(2), m.group(3), m.group(4)) if m else x, []).append(f)
        c.ob("delete-only", "from the router's tree", re.search(r"\.tree\b", t) is not None, fn, t[:200])
    known = {x for g in groups.values() for es in g.values() for x in es}
    keys = {("key",) + k[1:] for g in groups.values() for k in g}
    for x in taken:
        c.ob("delete-only", "a deleted entry is one that certifying inserts", x in known or x in keys, fn, f"{x}"[:500])

    def within(f, R):
        return all(x in R.facts or IGNORE.match(x) or x.startswith("mapremove(") and x.endswith(" is Some") or re.match(r"all\(", x) and "full(" in x for x in f)
    for g, ks in groups.items():
        for k, es in ks.items():
            rs = gone.get((g, k), [])
            nme = rs[0].name() if rs else str(g)
            c.ob("delete-complete", f"{nme}: taken out of the map", bool(rs), fn, f"{k} is never removed for {g}"[:400])
            for R in rs:
                x = {y for y in R.extra() if not y.endswith(" is Some") or not y.startswith("mapremove(")}
                c.ob("delete-complete", f"{nme}: without further condition", not x, fn, f"only if {sorted(x)}"[:500])
            for en in es if rs else ():
                fs = taken.get(en, []) + taken.get(("key",) + k[1:], [])
                c.ob("delete-complete", f"{nme}: its entry is taken out of the tree", any(within(f, R) for f in fs for R in rs), fn,
                     f"no deletion of {en[:300]} on these conditions"[:600])
            if rs and g[3]:
                c.ob("delete-complete", f"{nme}: for every chunk", all(x in (f"!lt(len({R.enc_is}.content), {chunk + 1})", f"lt(POS, len({R.enc_is}.content))", f"!lt(POS, len({R.enc_is}.content))")
                                                                       for R in rs for x in R.facts if re.match(r"!?lt\(", x)), fn, f"{sorted(rs[0].facts)}"[:400])
            elif rs and g[1] != "redirect":
                big = f"lt(len({rs[0].enc_is}.content), {chunk + 1})"
                fs = [R.facts for R in rs]
                c.ob("delete-complete", f"{nme}: whatever its size", any("!" + big in f for f in fs) == any(big in f for f in fs) or any(big not in f and "!" + big not in f for f in fs),
                     fn, f"only if {big}")
    fa = by_self(c, AC, "delete_all_assets", "AssetRouter")
    ra = c.run(fa, bounds(c), names=["self"])
    got = {}
    for e in ra.events:
        if last(e.path) == "clear" and e.args:
            got.setdefault(nshow(e.args[0]).replace("$self.", ""), []).append(sorted(pos(e.facts)))
    for x in ("responses", "fallback_responses", "tree"):
        c.ob("delete-all", f"{x} emptied", [] in got.get(x, []), fa, f"{got}"[:300])


class Served:
    """One lookup the served response may come from: in which map, for which path, encoding and range."""

    def __init__(self, x, path):
        self.x = x
        k = x
        while k.op == "fld" and k.a[2] in ("0",) or k.op == "fld" and k.a[1] == "Some":
            k = k.a[0]
        self.get = k
        self.good = k.op == "call" and last(k.a[0]) == "mapget" and len(k.a[1]) == 2
        if not self.good:
            return
        self.map = mapname(k.a[1][0])
        key = k.a[1][1]
        self.path_t, self.enc_t, self.pos_t = (field(key, n) for n in ("path", "encoding", "range_begin"))
        self.path = "PATH" if nshow(self.path_t) == path else nshow(self.path_t)
        self.plain = nshow(self.enc_t) == "None"
        p = nshow(self.pos_t)
        self.pos = p if p in ("None", "Some(0)") else "asked"

    def some(self):
        return f"{nshow(self.get)} is Some"


def strip(x, *fs):
    for f in fs:
        if x is None or not (x.op == "fld" and x.a[2] == f):
            return None
        x = x.a[0]
    return x


def scope_var(t):
    """(variable, with a slash at its end) of a fallback scope, which is a number of the path's segments joined."""
    slash = False
    while t.op == "call" and last(t.a[0]) == "concat":
        ps = [x for x in t.a[1] if nshow(x) != "''"]
        if len(ps) == 2 and nshow(ps[1]) in ("47", "'/'"):
            slash, t = True, ps[0]
        elif len(ps) == 1:
            t = ps[0]
        else:
            return None, False
    if t.op == "call" and last(t.a[0]) == "display":
        t = t.a[1][0]
    if t.op == "call" and last(t.a[0]) == "join" and nshow(t.a[1][1]) in ("'/'", "47"):
        return t.a[1][0], slash
    return None, False


def header_elem(t, d, name):
    """t is made of the value of a header of the request, under the fact that its name is the wanted one."""
    es = {x for x in subs(t) if x.op == "elem" and show(x.a[0]) == "$req.headers"}
    if len(es) != 1:
        return False
    e = es.pop()
    if not any(x.op == "fld" and x.a[0] == e for x in subs(t)):
        return False
    for c, v in d:
        if v and c.op in ("eq", "call") and any(x == e for x in subs(c)):
            s = nshow(c)
            if re.fullmatch(rf"eq\((HeaderName\(inner: Standard\(\w+\)\)|'[^']*'), lower\((?:each|earlier)\(\$req\.headers\)\.0\)\)", s) or re.match(r"eq_ignore", s):
                if lower_name(re.search(r"HeaderName\(inner: Standard\(\w+\)\)|'[^']*'", s).group(0)) == name:
                    return True
    return False


def c27(c):
    c.rule("serve-own", "the served response is the looked up one, with a certificate header made of its own tree entry's witness for the requested path, "
                        "its own expression path and the data certificate that was passed")
    c.rule("serve-lookup", "it is looked up under the requested path, an encoding the request accepts or none, and the range the request asks for, or among the "
                           "fallbacks under a scope of the path; the first chunk replaces a response larger than a chunk")
    c.rule("serve-order", "a fallback is served only when there is nothing for the path itself, scopes from the longest to the shortest; a plain response only "
                          "when there is no encoded one")
    c.rule("serve-missing", "it is not found only when there is nothing for the path and no fallback")
    c.rule("serve-encodings", "accepted encodings are tried by their rank")
    c.rule("serve-range", "a chunk is served for the range it is certified for")
    fn = by_self(c, AC, "serve_asset", "AssetRouter")
    ex = [by_self(c, HC, n, t) for n, t in (("to_expr_path", "HttpCertificationPath"), ("get_path", "HttpRequest"))]
    TM.LV.clear()
    r = c.run(fn, bounds(c, *ex), names=["self", "cert", "req"])
    chunk = chunk_size(c)
    path = "get_path($req)~Ok.0"
    evs = [e for e in r.events if last(e.path) == "add_v2_certificate_header"]
    c.count("serve-own", "certificate headers", len(evs), 1, fn)
    oks = by_variant(r, "Ok")
    c.ob("serve-own", "nothing is served without a certificate header", bool(oks) and all(
        re.match(r"Ok\(add_v2_certificate_header!1\(", nshow(t)) for _, t in oks), fn, f"{[nshow(t)[:80] for _, t in oks][:3]}")
    served = []
    for e in evs:
        cert, resp, wit, ep = e.args
        c.ob("serve-own", "the data certificate", nshow(cert) == "$cert", fn, nshow(cert)[:200])
        w = wit.a[0] if wit.op == "fld" and wit.a[1] == "Ok" else wit
        if not (w.op == "call" and last(w.a[0]) == "witness" and ep.op == "call" and last(ep.a[0]) == "to_expr_path"):
            c.ob("serve-own", "a witness and an expression path", False, fn, f"{nshow(wit)[:200]} {nshow(ep)[:200]}")
            continue
        tree, entry, url = w.a[1]
        c.ob("serve-own", "a witness of the router's tree for the requested path", re.search(r"\.tree\b", nshow(tree)) is not None and nshow(url) == path, fn,
             f"{nshow(tree)[:100]} {nshow(url)[:100]}")
        X = {(strip(x, "response"), g) for g, x in alts(resp)}
        E = {(strip(x, "tree_entry"), g) for g, x in alts(entry)}
        P = {(strip(x, "path", "tree_entry"), g) for g, x in alts(ep.a[1][0])}
        c.ob("serve-own", "the witness is of the served response's entry", X == E and None not in {x for x, _ in X}, fn,
             f"{[nshow(x)[:120] for x, _ in E if x is not None and (x, _) not in X][:3]}")
        c.ob("serve-own", "the expression path is of the served response's entry", X == P, fn, f"{[nshow(x)[:120] for x, _ in P if x is not None and (x, _) not in X][:3]}")
        for x, g in X:
            if x is not None:
                served.append((Served(x, path), g))
    for s, g in served:
        if not s.good:
            c.ob("serve-lookup", "a response the router keeps", False, fn, nshow(s.x)[:300])
    served = [(s, g) for s, g in served if s.good]
    main = {(s.plain, s.pos): s for s, _ in served if s.map == "responses"}
    fall = {}
    for s, g_ in served:
        if s.map == "fallback_responses":
            v, sl = scope_var(s.path_t)
            fall[s.plain, sl] = s
            c.ob("serve-lookup", "fallbacks are looked up under a scope of the path", v is not None and all(scopes(v, path, d) for d in dnf(g_)), fn,
                 f"{nshow(s.path_t)[:200]} {[nshow(x)[:100] for x in TM.LV.get(v, ())]}")
            c.ob("serve-lookup", "fallbacks are served whole", s.pos == "None", fn, s.pos)
    for k in ((False, "asked"), (True, "asked"), (False, "Some(0)"), (True, "Some(0)")):
        c.ob("serve-lookup", f"{'plain' if k[0] else 'encoded'} responses are served{', in chunks when they are large' if k[1] != 'asked' else ''}", k in main, fn, f"{sorted(main)}")
    for k in ((a, b) for a in (False, True) for b in (False, True)):
        c.ob("serve-lookup", f"{'plain' if k[0] else 'encoded'} fallbacks {'ending in a slash ' if k[1] else ''}are served", k in fall, fn, f"{sorted(fall)}")

    def big(s):
        return f"!lt(len({nshow(s.get)}~Some.0.response.body), {chunk + 1})"

    always = {}
    for s, g in served:
        for d in dnf(g):
            k = (s.map, nshow(s.path_t), s.plain, s.pos)
            always[k] = always[k] & pos(d) if k in always else pos(d)

    def absent(s, d, F):
        """Under these facts nothing is found where s looks, for any encoding: said of every one, or of every one it looks for."""
        if {f"!{s.some()}", f"!all({s.some()})"} & F:
            return True
        own = {y[1:] if y.startswith("!") else "!" + y for y in always.get((s.map, nshow(s.path_t), s.plain, s.pos), ()) if y != s.some()}
        for c_, v in d:
            if v and c_.op == "all" and c_.a[0].op == "or":
                left = [q for q in (pos(q) for q in c_.a[0].a[0]) if not q & own]
                if left and all(f"!{s.some()}" in q for q in left):
                    return True
        return False

    def missed(plain, d, F):
        """Under these facts there is nothing to serve for the path itself."""
        a, b = main.get((plain, "asked")), main.get((plain, "Some(0)"))
        if a is None or b is None:
            return False
        return absent(a, d, F) or big(a) in F and absent(b, d, F)

    def unsplit(F):
        """Under these facts there is no asset for the path that is no larger than a chunk."""
        a = main.get((True, "asked"))
        if a is None:
            return False
        t = nshow(a.get)
        w = t[:t.rindex("range_begin: " + nshow(a.pos_t))] + "range_begin: None))"
        return f"!{w} is Some" in F or f"!lt(len({w}~Some.0.response.body), {chunk + 1})" in F or \
            big(a) in F     # chunks are not: this is the asset itself
    for s, g in served:
        what = f"{s.map}, {'plain' if s.plain else 'encoded'}, {s.pos}"
        if s.map == "responses":
            c.ob("serve-lookup", "responses are looked up under the requested path", s.path == "PATH", fn, s.path[:300])
        elif s.map != "fallback_responses":
            c.ob("serve-lookup", "a response the router keeps", False, fn, s.map)
        if s.pos == "asked":
            same = main.get((True, "asked"))
            c.ob("serve-lookup", "every lookup asks for the same range", same is not None and s.pos_t == same.pos_t, fn, nshow(s.pos_t)[:200])
        for d in dnf(g):
            F = pos(d)
            c.ob("serve-lookup", f"{what}: only if it is there", s.some() in F, fn, f"{sorted(F)}"[:400])
            if not s.plain:
                en = s.enc_t.a[3][0] if s.enc_t.op == "adt" and s.enc_t.a[3] else s.enc_t
                c.ob("serve-lookup", f"{what}: an encoding the request accepts", header_elem(en, d, "accept-encoding"), fn, nshow(en)[:300])
            if s.map == "responses":
                a = main.get((s.plain, "asked"))
                if s.pos == "Some(0)":
                    c.ob("serve-lookup", f"{what}: only instead of one larger than a chunk", a is not None and big(a) in F and a.some() in F, fn, f"{sorted(F)}"[:400])
                else:
                    c.ob("serve-lookup", f"{what}: only if it is not larger than a chunk", big(s)[1:] in F, fn, f"{sorted(F)}"[:400])
                if s.plain:
                    c.ob("serve-order", f"{what}: no encoded one", missed(False, d, F), fn, f"{sorted(F)}"[:400])
            else:
                v, sl = scope_var(s.path_t)
                c.ob("serve-order", f"{what}: nothing for the path itself", missed(True, d, F), fn, f"{sorted(F)}"[:400])
                c.ob("serve-order", "no fallback for a path that has an asset which is served whole", unsplit(F), fn,
                     f"an asset no larger than a chunk may be there, only not under the range asked for: {sorted(F)}"[:500])
                for (p2, s2), o in fall.items():
                    before = (s2 and not sl) or (s2 == sl and not p2 and s.plain)
                    if before and nshow(scope_var(o.path_t)[0]) == nshow(v):
                        if p2 or s.plain:
                            c.ob("serve-order", f"{what}{', slash' if sl else ''}: not the {'plain' if p2 else 'encoded'} fallback{' ending in a slash' if s2 else ''}",
                                 absent(o, d, F), fn, f"{sorted(F)}"[:6000])
    for d, t in by_variant(r, "Err"):
        F, s = pos(d), nshow(t)
        if re.search(r"NoAssetMatchingRequestUrl", s):
            c.ob("serve-missing", "not found only when nothing is there for the path", missed(True, d, F), fn, f"{sorted(F)}"[:400])
            c.ob("serve-missing", "not found only when there is no asset that is served whole", unsplit(F), fn,
                 f"an asset no larger than a chunk may be there, only not under the range asked for: {sorted(F)}"[:500])
            left = {show(v) for v in scopevars(fall)} | {nshow(w) for w in (prefix_walk(v, path) for v in scopevars(fall)) if w is not None}
            done = [x for x in F if re.fullmatch(r"eq\(0, len\(lv\(.*\)\)\)|!next\(.*\) is Some|!lt\(.*", x) and any(v in x for v in left)]
            c.ob("serve-missing", "not found only when no scope is left", bool(done), fn, f"{sorted(F)}"[:400])
        else:
            c.ob("serve-missing", "another error only for a request or a tree it cannot use", re.match(
                r"Err\((from\()?(get_path\(|witness\(|RequestError\(|HttpCertificationError\(|.*(Range|range))", s) is not None, fn, s[:300])
    # the range that is looked up
    a = main.get((True, "asked"))
    if a is not None:
        for g, x in alts(a.pos_t):
            for d in dnf(g):
                F = pos(d)
                if nshow(x) == "None":
                    c.ob("serve-lookup", "no range only without a range header", any(re.match(r"!all\((eq\(.*[Rr]ange|eq_ignore)", y) for y in F), fn, f"{sorted(F)}"[:300])
                else:
                    n = x.a[3][0] if x.op == "adt" and x.a[3] else x
                    c.ob("serve-lookup", "the range is what the range header says", header_elem(n, d, "range") and re.fullmatch(
                        r"parse\(split\(.*'bytes='.*\)\[0\]\)(~Ok\.0)?", nshow(n)) is not None, fn, nshow(n)[:300])
                    parts = {y for y in F if re.match(r"!?eq\(('', split\(.*\)\[1\]|2, len\(split\(.*\)\))\)", y)}
                    end = any(y.startswith("!eq(''") for y in parts)
                    open_ = any(y.startswith("eq(''") for y in parts)
                    c.ob("serve-range", "a range is a start, a dash and possibly an end", any(y.startswith("eq(2, len(") for y in parts) and (end or open_) and
                         any(re.match(r"starts_with\(.*'bytes='\)", y) for y in F), fn, f"{sorted(F)}"[:400])
                    if end:
                        c.ob("serve-range", "no chunk is served for a range that has an end", False, fn,
                             "the chunk starting where the range does is served, which is certified for the same range without an end only")
                    if open_:
                        c.ob("serve-range", "no chunk is served for bytes=0-", any(y.startswith("!eq(0, parse(") for y in F), fn,
                             "the first chunk is served, which is certified for requests without a range header only")
    ranks(c, served, fn)


def scopevars(fall):
    return {v for v in (scope_var(s.path_t)[0] for s in fall.values()) if v is not None}


def prefix_walk(v, path):
    """The sequence of numbers n where v is the first n segments of the path, for every n from 1 to all but the last."""
    if v.op == "call" and last(v.a[0]) in ("slice", "to_vec"):
        segs, r = v.a[1]
        n = r.a[3][-1] if r.op == "adt" and r.a[1] in ("Range", "RangeTo") and (r.a[1] == "RangeTo" or num(r.a[3][0]) == 0) else None
        full = re.fullmatch(r"split\(" + re.escape(path) + r", (47|'/')\)", nshow(segs))
        if full and n is not None and n.op == "elem" and n.a[0].op == "adt" and n.a[0].a[1] == "Range":
            lo, hi = n.a[0].a[3]
            if num(lo) == 1 and hi.op == "len" and hi.a[0] == segs:
                return n.a[0]
    return None


def scopes(v, path, d=frozenset()):
    """The values of v are all but the last of the path's segments, then ever fewer."""
    w = prefix_walk(v, path)
    if w is not None:
        return any(val and c.op == "inorder" and c.a[0].op == "call" and last(c.a[0].a[0]) == "reversed" and c.a[0].a[1][0] == w for c, val in d)
    full = re.compile(r"pop!0\(split\(" + re.escape(path) + r", (47|'/')\)\)")
    vals = TM.LV.get(v)
    begins = []

    def ok(x, popped):
        if x == v:
            return popped
        if full.fullmatch(nshow(x)):
            begins.append(x)
            return True
        if x.op == "mut" and last(x.a[0]) == "pop":
            return all(ok(y, True) for _, y in alts(x.a[2][0]))
        return x.op == "phi" and all(ok(y, popped) for _, y in alts(x))
    return bool(vals) and all(ok(x, False) for x in vals) and any(v in set(subs(x)) for x in vals) and bool(begins)


RANK = ["br", "zstd", "gzip", "deflate", "identity"]


def holds_for(g, name):
    """The guard holds when the encoding's name is this one; None if that cannot be told."""
    for c, v in g:
        m = re.fullmatch(r"eq\('([^']*)', (lower\()?.*\)?\)", nshow(c)) if c.op in ("eq", "call") else None
        if m is None:
            return None
        if (m.group(1) == name) != v:
            return False
    return True


def key_of(t, name):
    for g, x in alts(t):
        h = holds_for(g, name)
        if h is None:
            return None
        if h:
            m = re.search(r'const\(\["raw", "(\d+)"\]\)', show(x))
            return int(m.group(1)) if m else num(x)
    return None


def rank_order(o):
    """The names of RANK in the order in which the sorted sequence has them, or None."""
    so = o.a[0]
    if not (so.op == "call" and so.a[0] == "sorted"):
        return None
    seq, cond = so.a[1][:2]
    while seq.op == "call" and seq.a[0] in ("sorted", "reversed"):
        seq = seq.a[1][0]
    if not (seq.op == "list" and len(seq.a[0]) == 1 and cond.op == "cmp"):
        return None
    item = seq.a[0][0][1]
    sx, sy = mk("sy"), mk("sx")
    keys, order = [], None
    for n in RANK:
        ks = []
        for side in cond.a[:2]:
            ph = [x for x in subs(side) if x.op in ("sx", "sy")]
            if len(set(ph)) != 1:
                return None
            order = order or ph[0].op
            t = rewrite(side, lambda x: item if x == ph[0] else (field(x.a[0], x.a[2]) if x.op == "fld" and x.a[0] == item else None) or x, {})
            ks.append(key_of(t, n))
        if ks[0] != ks[1] or ks[0] is None:
            return None
        keys.append(ks[0])
    if len(set(keys)) != len(keys):
        return [k for k in keys]
    r = sorted(RANK, key=lambda n: keys[RANK.index(n)])
    return r if order == "sx" else r[::-1]


def ranks(c, served, fn):
    for s, g in served:
        if s.plain:
            continue
        for d in dnf(g):
            os = [x for f, v in d for x in (f,) if v and f.op == "inorder"]
            got = [rank_order(o) for o in os]
            c.ob("serve-encodings", "br, zstd, gzip, deflate, identity", RANK in got, fn, f"{got or sorted(pos(d))}"[:300])


RULES = {"C25": c25, "C26": c26, "C27": c27}
